From ad218e085a4036f955be9876d356d5672da52bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 001/132] fix: refuse Content-Length values that are not
 1*DIGIT

---
 crates/sip-parse/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a6678f2..a597659 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -478,6 +478,11 @@ fn parse_content_length_value(value: &SmolStr) -> Option<usize> {
 
 fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLengthError> {
     let trimmed = value.trim();
+    // RFC 3261 §20.14: Content-Length = 1*DIGIT. `u64::from_str` would also
+    // accept a leading '+', which stream framing rejects.
+    if trimmed.is_empty() || !trimmed.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ContentLengthError::Invalid);
+    }
 
     // Parse to u64 first to detect overflow on 32-bit systems
     let value_u64 = trimmed
-- 
2.43.0


From 80acdb274f6c6acfff9dae7c630ac78448d9c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 002/132] fix: accept a status line whose reason phrase is
 empty

---
 crates/sip-parse/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a597659..296c547 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -307,10 +307,13 @@ fn parse_status_line(line: &str) -> Option<StatusLine> {
         tag_no_case::<_, _, nom::error::Error<_>>("SIP/2.0"),
         space1::<_, nom::error::Error<_>>,
         nom_u16::<_, nom::error::Error<_>>,
-        space1::<_, nom::error::Error<_>>,
         rest::<_, nom::error::Error<_>>,
     ));
-    let (_, (_, _, code, _, reason)) = parser(line.trim()).ok()?;
+    let (_, (_, _, code, reason)) = parser(line.trim()).ok()?;
+    // RFC 3261 §7.2: the reason phrase may be empty ("SIP/2.0 200 ").
+    if !reason.is_empty() && !reason.starts_with([' ', '\t']) {
+        return None;
+    }
 
     StatusLine::new(code, reason.trim()).ok()
 }
-- 
2.43.0


From 14fc999480d8f49b667cb195ce04427fe7a2a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 003/132] fix: accept requests whose Via header lists several
 values

---
 crates/sip-parse/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 296c547..03fba72 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -72,6 +72,9 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
             .split(';')
             .find_map(|p| p.trim().strip_prefix("branch="))
         {
+            // The field may list several Via values (RFC 3261 §7.3.1); only the
+            // topmost one identifies the transaction.
+            let branch = branch.split(',').next().unwrap_or(branch);
             if !is_valid_branch(branch.trim()) {
                 return None;
             }
@@ -107,6 +110,9 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
             .split(';')
             .find_map(|p| p.trim().strip_prefix("branch="))
         {
+            // The field may list several Via values (RFC 3261 §7.3.1); only the
+            // topmost one identifies the transaction.
+            let branch = branch.split(',').next().unwrap_or(branch);
             if !is_valid_branch(branch.trim()) {
                 return None;
             }
-- 
2.43.0


From 2797774b84502564e4a06cd50590c9383d79e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 004/132] fix: percent-encode the user part when a SIP URI is
 rebuilt

---
 crates/sip-core/src/uri.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a93bb5a..191228b 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -781,11 +781,31 @@ fn is_token_char(c: char) -> bool {
         )
 }
 
+/// Appends a decoded user part, percent-encoding everything RFC 3261 §25.1
+/// does not allow literally in userinfo (so that the text parses back to the
+/// same user and cannot end an enclosing `<...>`).
+fn push_escaped_user(out: &mut String, user: &str) {
+    for b in user.bytes() {
+        let literal = b.is_ascii_alphanumeric()
+            || matches!(
+                b,
+                b'-' | b'_' | b'.' | b'!' | b'~' | b'*' | b'\'' | b'(' | b')' // unreserved
+                    | b'&' | b'=' | b'+' | b'$' | b',' // user-unreserved
+                    | b':' // password separator
+            );
+        if literal {
+            out.push(b as char);
+        } else {
+            out.push_str(&format!("%{b:02X}"));
+        }
+    }
+}
+
 fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
     let mut out = String::new();
     out.push_str(if uri.sips { "sips:" } else { "sip:" });
     if let Some(user) = &uri.user {
-        out.push_str(user.as_str());
+        push_escaped_user(&mut out, user.as_str());
         out.push('@');
     }
     if uri.host.contains(':') && !uri.host.starts_with('[') && !uri.host.ends_with(']') {
-- 
2.43.0


From a9a6bf8919fde9f44a42be8e8b4c51c95847fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 005/132] fix: SIP URIs built from a host bracket IPv6 literals
 and fold case like parsing does

---
 crates/sip-core/src/uri.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 191228b..b7649d1 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -296,17 +296,17 @@ impl SipUri {
         let host = host.into();
         validate_host(&host)?;
 
-        let raw = SmolStr::new(format!("sip:{}", host));
-
-        Ok(Self {
-            raw,
+        let mut uri = Self {
+            raw: SmolStr::default(),
             sips: false,
             user: None,
-            host,
+            host: SmolStr::new(host.to_ascii_lowercase()),
             port: None,
             params: BTreeMap::new(),
             headers: BTreeMap::new(),
-        })
+        };
+        uri.raw = build_raw_sip_uri(&uri);
+        Ok(uri)
     }
 
     /// Attempts to parse a SIP or SIPS URI from the provided string.
@@ -476,7 +476,8 @@ impl SipUri {
     pub fn with_host(mut self, host: impl Into<SmolStr>) -> Result<Self, UriError> {
         let host = host.into();
         validate_host(&host)?;
-        self.host = host;
+        // Hosts are case-insensitive and stored in lower case, as by `parse`.
+        self.host = SmolStr::new(host.to_ascii_lowercase());
         self.raw = build_raw_sip_uri(&self);
         Ok(self)
     }
-- 
2.43.0


From 88f197e1cf48756edc25abe5f54790e3b30d1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 006/132] fix: refuse SIP URI parameter values that would
 inject further parameters

---
 crates/sip-core/src/uri.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index b7649d1..9de44bf 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -542,6 +542,14 @@ impl SipUri {
             Some(v) => {
                 let v = v.into();
                 validate_param_value(&v)?;
+                // Characters that would end the parameter or the URI.
+                if v.chars()
+                    .any(|c| c.is_whitespace() || matches!(c, ';' | '?' | '@' | '<' | '>' | '"'))
+                {
+                    return Err(UriError::InvalidParameter(
+                        "parameter value contains URI delimiters".to_string(),
+                    ));
+                }
                 Some(v)
             }
             None => None,
-- 
2.43.0


From c2d880b662fa722f5d86159ac3e921ee2a1f5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 007/132] fix: refuse text other than a port after an IPv6
 literal in a SIP URI

---
 crates/sip-core/src/uri.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 9de44bf..a2e7220 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -752,14 +752,17 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
         let host = &input[1..end];
         let remainder = &input[end + 1..];
 
-        if let Some(stripped) = remainder.strip_prefix(':') {
-            let port = stripped
-                .parse()
-                .map_err(|_| UriError::InvalidPort("invalid port number".to_string()))?;
-            Ok((host, Some(port)))
-        } else {
-            Ok((host, None))
+        if remainder.is_empty() {
+            return Ok((host, None));
         }
+        let port = remainder
+            .strip_prefix(':')
+            .filter(|p| p.chars().all(|c| c.is_ascii_digit()))
+            .and_then(|p| p.parse().ok())
+            .ok_or_else(|| {
+                UriError::InvalidPort("invalid text after IPv6 literal".to_string())
+            })?;
+        Ok((host, Some(port)))
     } else if let Some(idx) = input.rfind(':') {
         // If multiple colons (unbracketed IPv6), invalid
         if input.matches(':').count() > 1 {
-- 
2.43.0


From 333c178273024d18595b335b4a3bcdb32d060c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 008/132] fix: recognise the sip and sips schemes
 case-insensitively

---
 crates/sip-core/src/uri.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a2e7220..6a53fa6 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -597,11 +597,13 @@ impl Uri {
         }
 
         // Try tel URI first (more specific prefix)
+        // Schemes are case-insensitive (RFC 3986 §3.1).
+        let scheme = input.split(':').next().unwrap_or_default();
         if input.starts_with("tel:") {
             TelUri::parse(input)
                 .map(Uri::Tel)
                 .map_err(|e| UriError::InvalidFormat(e.to_string()))
-        } else if input.starts_with("sip:") || input.starts_with("sips:") {
+        } else if scheme.eq_ignore_ascii_case("sip") || scheme.eq_ignore_ascii_case("sips") {
             SipUri::parse(input).map(Uri::Sip)
         } else {
             parse_absolute_uri(input).map(Uri::Absolute)
-- 
2.43.0


From 81eb764d1007cb9269fcb739fdec289d2e670c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 009/132] fix: refuse tel URI parameter values that would
 inject further parameters

---
 crates/sip-core/src/tel_uri.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 1863b17..55687d1 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -271,6 +271,13 @@ fn validate_parameter_value(value: &str) -> Result<(), TelUriError> {
         ));
     }
 
+    // A separator would be read back as the start of another parameter.
+    if value.contains(';') {
+        return Err(TelUriError::InvalidParameter(
+            "parameter value contains a separator".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From cd5d91d5d79c7bd33a17e56b5f0edd9f30cb3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 010/132] fix: refuse Via parameter values that would read back
 as further parameters

---
 crates/sip-core/src/via.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-core/src/via.rs b/crates/sip-core/src/via.rs
index be9baa2..543f00c 100644
--- a/crates/sip-core/src/via.rs
+++ b/crates/sip-core/src/via.rs
@@ -229,6 +229,13 @@ fn validate_param_value(value: &str) -> Result<(), ViaError> {
         ));
     }
 
+    // A separator or surrounding whitespace would be read back differently.
+    if value.contains(';') || value.trim() != value {
+        return Err(ViaError::InvalidParameter(
+            "parameter value contains a separator".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 35393df624217e9bf10b4c7d68778e43944a8d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 011/132] fix: escape and unescape quoted text in name-addr
 headers, and keep separators inside quotes and URIs

---
 crates/sip-core/src/name_addr.rs      | 77 +++++++++++++++++++++++++++
 crates/sip-core/src/p_headers.rs      | 32 +++++++----
 crates/sip-core/src/referred_by.rs    | 35 ++++++------
 crates/sip-core/src/route.rs          | 18 +++----
 crates/sip-core/src/service_route.rs  | 20 +++----
 crates/sip-parse/src/header_values.rs | 53 ++++++++++++++++--
 6 files changed, 178 insertions(+), 57 deletions(-)

diff --git a/crates/sip-core/src/name_addr.rs b/crates/sip-core/src/name_addr.rs
index 5bee56c..b43a252 100644
--- a/crates/sip-core/src/name_addr.rs
+++ b/crates/sip-core/src/name_addr.rs
@@ -160,6 +160,83 @@ impl std::fmt::Display for NameAddrError {
 
 impl std::error::Error for NameAddrError {}
 
+/// Writes `text` as a quoted-string (RFC 3261 §25.1), escaping quotes and backslashes.
+pub(crate) fn write_quoted(f: &mut std::fmt::Formatter<'_>, text: &str) -> std::fmt::Result {
+    f.write_str("\"")?;
+    for ch in text.chars() {
+        if matches!(ch, '"' | '\\') {
+            f.write_str("\\")?;
+        }
+        write!(f, "{}", ch)?;
+    }
+    f.write_str("\"")
+}
+
+/// Writes `;name[=value]`, quoting values that are neither a token nor a host.
+pub(crate) fn write_param(
+    f: &mut std::fmt::Formatter<'_>,
+    name: &str,
+    value: Option<&str>,
+) -> std::fmt::Result {
+    write!(f, ";{}", name)?;
+    if let Some(value) = value {
+        f.write_str("=")?;
+        let plain = !value.is_empty()
+            && value.chars().all(|c| {
+                c.is_ascii_graphic() && !matches!(c, '"' | '\\' | ';' | ',' | '<' | '>')
+            });
+        if plain {
+            f.write_str(value)?;
+        } else {
+            write_quoted(f, value)?;
+        }
+    }
+    Ok(())
+}
+
+/// Returns the content of a quoted-string, or the text itself when it is not one.
+pub(crate) fn unquote(text: &str) -> SmolStr {
+    let inner = match text.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
+        Some(inner) => inner,
+        None => return SmolStr::new(text),
+    };
+    if !inner.contains('\\') {
+        return SmolStr::new(inner);
+    }
+    let mut out = String::with_capacity(inner.len());
+    let mut chars = inner.chars();
+    while let Some(ch) = chars.next() {
+        if ch == '\\' {
+            out.extend(chars.next());
+        } else {
+            out.push(ch);
+        }
+    }
+    SmolStr::new(out)
+}
+
+/// Splits at `separator` outside quoted-strings.
+pub(crate) fn split_unquoted(input: &str, separator: char) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut start = 0;
+    let mut in_quotes = false;
+    let mut escaped = false;
+    for (idx, ch) in input.char_indices() {
+        if escaped {
+            escaped = false;
+        } else if in_quotes && ch == '\\' {
+            escaped = true;
+        } else if ch == '"' {
+            in_quotes = !in_quotes;
+        } else if ch == separator && !in_quotes {
+            parts.push(&input[start..idx]);
+            start = idx + ch.len_utf8();
+        }
+    }
+    parts.push(&input[start..]);
+    parts
+}
+
 fn validate_text(field: &'static str, value: &str, max_len: usize) -> Result<(), NameAddrError> {
     if value.len() > max_len {
         return Err(NameAddrError::TextTooLong {
diff --git a/crates/sip-core/src/p_headers.rs b/crates/sip-core/src/p_headers.rs
index 666709a..581d1a8 100644
--- a/crates/sip-core/src/p_headers.rs
+++ b/crates/sip-core/src/p_headers.rs
@@ -6,6 +6,7 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
+use crate::name_addr::{split_unquoted, unquote, write_param, write_quoted};
 use crate::uri::Uri;
 use crate::SipUri;
 use crate::TelUri;
@@ -164,17 +165,14 @@ impl PIdentity {
 impl fmt::Display for PIdentity {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(ref name) = self.display_name {
-            write!(f, "\"{}\" <{}>", name, self.uri)?;
+            write_quoted(f, name)?;
+            write!(f, " <{}>", self.uri)?;
         } else {
             write!(f, "<{}>", self.uri)?;
         }
 
         for (key, value) in &self.params {
-            if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
-            } else {
-                write!(f, ";{}", key)?;
-            }
+            write_param(f, key, value.as_deref())?;
         }
         Ok(())
     }
@@ -660,7 +658,7 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
     // Try to parse as URI in brackets: <uri>
     if let Some((start, end)) = find_unquoted_angle_brackets(input)? {
-        let display = input[..start].trim().trim_matches('"');
+        let display = unquote(input[..start].trim());
         let uri_str = input[start + 1..end].trim();
         let params_str = input[end + 1..].trim();
 
@@ -674,8 +672,8 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
         };
 
         if !display.is_empty() {
-            validate_display_name(display)?;
-            identity.display_name = Some(SmolStr::new(display));
+            validate_display_name(&display)?;
+            identity.display_name = Some(display);
         }
 
         if !params_str.is_empty() {
@@ -705,9 +703,15 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, PHeaderError> {
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if escaped {
+            escaped = false;
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => {
                 if start.is_some() {
@@ -741,9 +745,15 @@ fn split_identities(value: &str) -> Vec<&str> {
     let mut start = 0;
     let mut in_quotes = false;
     let mut in_angle = false;
+    let mut escaped = false;
 
     for (idx, ch) in value.char_indices() {
+        if escaped {
+            escaped = false;
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => in_angle = true,
             '>' if !in_quotes => in_angle = false,
@@ -775,13 +785,13 @@ fn split_uri_and_params(value: &str) -> (&str, Option<&str>) {
 }
 
 fn add_params_from_str(identity: &mut PIdentity, params_str: &str) -> Result<(), PHeaderError> {
-    for raw_param in params_str.split(';') {
+    for raw_param in split_unquoted(params_str, ';') {
         let param = raw_param.trim();
         if param.is_empty() {
             continue;
         }
         if let Some((name, value)) = param.split_once('=') {
-            identity.add_param(name.trim(), Some(value.trim()))?;
+            identity.add_param(name.trim(), Some(unquote(value.trim())))?;
         } else {
             identity.add_param(param, Option::<&str>::None)?;
         }
diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index 75d6b7b..3ca1262 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -32,7 +32,7 @@ use std::fmt;
 
 use smol_str::SmolStr;
 
-use crate::name_addr::NameAddr;
+use crate::name_addr::{split_unquoted, unquote, write_param, write_quoted, NameAddr};
 use crate::{SipUri, Uri};
 
 const MAX_CID_LENGTH: usize = 256;
@@ -379,12 +379,7 @@ impl ReferredByHeader {
             let display_name = if display_part.is_empty() {
                 None
             } else {
-                let display_part = if display_part.starts_with('"') && display_part.ends_with('"') {
-                    &display_part[1..display_part.len() - 1]
-                } else {
-                    display_part
-                };
-                Some(SmolStr::new(display_part))
+                Some(unquote(display_part))
             };
 
             (display_name, uri_str)
@@ -403,7 +398,7 @@ impl ReferredByHeader {
 
         // Parse parameters
         if !params_str.is_empty() {
-            for part in params_str.split(';') {
+            for part in split_unquoted(params_str, ';') {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
@@ -420,14 +415,8 @@ impl ReferredByHeader {
                     let key = key.trim();
                     let value = value.trim();
 
-                    // Require len >= 2 so a lone '"' (which satisfies both
-                    // starts_with and ends_with) does not slice [1..0] and panic.
-                    let value =
-                        if value.len() >= 2 && value.starts_with('"') && value.ends_with('"') {
-                            &value[1..value.len() - 1]
-                        } else {
-                            value
-                        };
+                    let value = unquote(value);
+                    let value = value.as_str();
 
                     if key.eq_ignore_ascii_case("cid") {
                         validate_cid(value)?;
@@ -464,16 +453,18 @@ impl ReferredByHeader {
 impl fmt::Display for ReferredByHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.name_addr.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            write_quoted(f, display_name)?;
+            f.write_str(" ")?;
         }
         write!(f, "<{}>", self.name_addr.uri().as_str())?;
 
         if let Some(ref cid) = self.cid {
-            write!(f, ";cid=\"{}\"", cid)?;
+            f.write_str(";cid=")?;
+            write_quoted(f, cid)?;
         }
 
         for (name, value) in &self.params {
-            write!(f, ";{}={}", name, value)?;
+            write_param(f, name, Some(value))?;
         }
 
         Ok(())
@@ -504,9 +495,15 @@ fn validate_cid(cid: &str) -> Result<(), ReferredByError> {
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, ReferredByError> {
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if escaped {
+            escaped = false;
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => {
                 if start.is_some() {
diff --git a/crates/sip-core/src/route.rs b/crates/sip-core/src/route.rs
index 2b56e58..930a961 100644
--- a/crates/sip-core/src/route.rs
+++ b/crates/sip-core/src/route.rs
@@ -50,7 +50,8 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
-use crate::{name_addr::NameAddr, Uri};
+use crate::name_addr::{split_unquoted, unquote, write_param, write_quoted, NameAddr};
+use crate::Uri;
 
 const MAX_PARSE_INPUT: usize = 2048;
 
@@ -300,15 +301,12 @@ impl RouteHeader {
 impl fmt::Display for RouteHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.0.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            write_quoted(f, display_name)?;
+            f.write_str(" ")?;
         }
         write!(f, "<{}>", self.0.uri().as_str())?;
         for (key, value) in self.0.params() {
-            if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
-            } else {
-                write!(f, ";{}", key)?;
-            }
+            write_param(f, key, value.as_deref())?;
         }
         Ok(())
     }
@@ -336,7 +334,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(unquote(display))
                 },
                 uri,
                 params,
@@ -361,7 +359,7 @@ const MAX_PARAMS: usize = 64;
 /// Returns None if there are too many parameters (>64).
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_unquoted(input, ';') {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -375,7 +373,7 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
         if let Some((name, value)) = raw.split_once('=') {
             params.insert(
                 SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
+                Some(unquote(value.trim())),
             );
         } else {
             params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
diff --git a/crates/sip-core/src/service_route.rs b/crates/sip-core/src/service_route.rs
index 77d006b..137be28 100644
--- a/crates/sip-core/src/service_route.rs
+++ b/crates/sip-core/src/service_route.rs
@@ -4,7 +4,7 @@
 
 //! RFC 3327 Path and RFC 3608 Service-Route headers with security hardening.
 
-use crate::name_addr::NameAddr;
+use crate::name_addr::{write_param, write_quoted, NameAddr};
 use crate::Uri;
 use std::fmt;
 
@@ -149,15 +149,12 @@ impl fmt::Display for PathHeader {
                 write!(f, ", ")?;
             }
             if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
+                write_quoted(f, display_name)?;
+                f.write_str(" ")?;
             }
             write!(f, "<{}>", route.uri().as_str())?;
             for (key, value) in route.params() {
-                if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
-                } else {
-                    write!(f, ";{}", key)?;
-                }
+                write_param(f, key, value.as_deref())?;
             }
         }
         Ok(())
@@ -276,15 +273,12 @@ impl fmt::Display for ServiceRouteHeader {
                 write!(f, ", ")?;
             }
             if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
+                write_quoted(f, display_name)?;
+                f.write_str(" ")?;
             }
             write!(f, "<{}>", route.uri().as_str())?;
             for (key, value) in route.params() {
-                if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
-                } else {
-                    write!(f, ";{}", key)?;
-                }
+                write_param(f, key, value.as_deref())?;
             }
         }
         Ok(())
diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 35083cf..92e0b32 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -425,7 +425,7 @@ fn parse_name_addr(value: &SmolStr) -> Option<NameAddr> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(unquote(display))
                 },
                 uri,
                 params,
@@ -449,7 +449,7 @@ const MAX_PARAMS: usize = 64;
 /// Returns None if there are too many parameters (>64).
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_unquoted_semicolons(input) {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -463,7 +463,7 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
         if let Some((name, value)) = raw.split_once('=') {
             params.insert(
                 SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
+                Some(unquote(value.trim())),
             );
         } else {
             params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
@@ -472,6 +472,46 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     Some(params)
 }
 
+/// Returns the content of a quoted-string, or the text itself when it is not one.
+fn unquote(text: &str) -> SmolStr {
+    let inner = match text.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
+        Some(inner) => inner,
+        None => return SmolStr::new(text),
+    };
+    let mut out = String::with_capacity(inner.len());
+    let mut chars = inner.chars();
+    while let Some(ch) = chars.next() {
+        if ch == '\\' {
+            out.extend(chars.next());
+        } else {
+            out.push(ch);
+        }
+    }
+    SmolStr::new(out)
+}
+
+/// Splits at semicolons outside quoted-strings.
+fn split_unquoted_semicolons(input: &str) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut start = 0;
+    let mut in_quotes = false;
+    let mut escaped = false;
+    for (idx, ch) in input.char_indices() {
+        if escaped {
+            escaped = false;
+        } else if in_quotes && ch == '\\' {
+            escaped = true;
+        } else if ch == '"' {
+            in_quotes = !in_quotes;
+        } else if ch == ';' && !in_quotes {
+            parts.push(&input[start..idx]);
+            start = idx + 1;
+        }
+    }
+    parts.push(&input[start..]);
+    parts
+}
+
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, ()> {
     let mut in_quotes = false;
     let mut escape_next = false;
@@ -554,6 +594,7 @@ fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_angle = false;
     let mut escape_next = false;
     for ch in input.chars() {
         if escape_next {
@@ -570,7 +611,11 @@ fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' | '>' if !in_quotes => {
+                in_angle = ch == '<';
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_angle => {
                 if !current.trim().is_empty() {
                     // Security: Prevent DoS via excessive comma-separated values
                     if parts.len() >= max_parts {
-- 
2.43.0


From fb36923ed00210b314f39995c7f45b66fc9f6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 012/132] fix: Reason parameters respect quoted-strings when
 parsed and printed

---
 crates/sip-core/src/reason.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 82ea91f..42e3170 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -2,6 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::name_addr::{split_unquoted, write_quoted};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -380,8 +381,9 @@ impl fmt::Display for ReasonHeader {
         for (key, value) in &self.params {
             write!(f, ";{}", key)?;
             if let Some(val) = value {
-                if key == "text" || val.contains(|c: char| c.is_whitespace() || c == ';') {
-                    write!(f, "=\"{}\"", val)?;
+                if key == "text" || !is_plain_value(val) {
+                    write!(f, "=")?;
+                    write_quoted(f, val)?;
                 } else {
                     write!(f, "={}", val)?;
                 }
@@ -392,6 +394,12 @@ impl fmt::Display for ReasonHeader {
     }
 }
 
+/// Returns true when a parameter value can be written without quotes.
+fn is_plain_value(value: &str) -> bool {
+    !value.is_empty()
+        && !value.contains(|c: char| c.is_whitespace() || matches!(c, ';' | ',' | '"' | '\\'))
+}
+
 // Validation functions
 
 fn validate_protocol(protocol: &str) -> Result<(), ReasonError> {
@@ -526,7 +534,7 @@ pub fn parse_reason_from_string(value: &str) -> Result<ReasonHeader, ReasonError
         });
     }
 
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';').into_iter();
     let protocol = parts.next().unwrap_or("").trim();
 
     validate_protocol(protocol)?;
-- 
2.43.0


From feffef59a11c0f81074c1f76dee8be2761e2617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 013/132] fix: media type parameters may contain ';' inside
 quotes

---
 crates/sip-core/src/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/mime.rs b/crates/sip-core/src/mime.rs
index 55c718d..cfbeba7 100644
--- a/crates/sip-core/src/mime.rs
+++ b/crates/sip-core/src/mime.rs
@@ -488,7 +488,7 @@ fn normalize_param_value(value: &str) -> Result<SmolStr, MimeTypeError> {
 /// Format: `type/subtype[;param=value]...`
 fn parse_mime_type(s: &str) -> Result<MimeType, MimeTypeError> {
     // Split on semicolon to separate type from parameters
-    let parts: Vec<&str> = s.split(';').collect();
+    let parts = crate::name_addr::split_unquoted(s, ';');
 
     if parts.is_empty() {
         return Err(MimeTypeError::InvalidType("empty string".to_string()));
-- 
2.43.0


From f4f2257f18d6f8cf82fd3fdd74a62356fad34e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 014/132] fix: Session-Expires refresher parameter name is
 case-insensitive

---
 crates/sip-core/src/session_timer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/session_timer.rs b/crates/sip-core/src/session_timer.rs
index a09dc54..1a67bf9 100644
--- a/crates/sip-core/src/session_timer.rs
+++ b/crates/sip-core/src/session_timer.rs
@@ -342,9 +342,10 @@ impl SessionExpires {
         // Parse optional refresher parameter
         let mut refresher = None;
         for part in &parts[1..] {
-            let param = part.trim();
-            if let Some(value) = param.strip_prefix("refresher=") {
-                refresher = RefresherRole::parse(value.trim());
+            if let Some((name, value)) = part.split_once('=') {
+                if name.trim().eq_ignore_ascii_case("refresher") {
+                    refresher = RefresherRole::parse(value);
+                }
             }
         }
 
-- 
2.43.0


From 87471c0224dfdea79c2b255b500155de14574644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 015/132] fix: Authorization values lose only their own
 enclosing quotes

---
 crates/sip-parse/src/header_values.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 92e0b32..ea41f1c 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -582,7 +582,11 @@ fn parse_auth_like_header(value: &SmolStr) -> Option<AuthorizationHeader> {
         if params.contains_key(&key) {
             return None;
         }
-        let cleaned = val.trim().trim_matches('"');
+        let val = val.trim();
+        let cleaned = val
+            .strip_prefix('"')
+            .and_then(|v| v.strip_suffix('"'))
+            .unwrap_or(val);
         params.insert(key, SmolStr::new(cleaned));
     }
     // Use from_raw() which validates scheme, params count, and param values
-- 
2.43.0


From 1e61de817fe72c9d0570d4302ef0c5e7b903e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 016/132] fix: a request that fails digest verification does
 not move the nonce replay window

---
 crates/sip-auth/src/lib.rs | 84 +++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..f69eeb3 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -809,6 +809,7 @@ struct DigestParams {
     uri: SmolStr,
     response: SmolStr,
     nc_raw: Option<SmolStr>,
+    nc_value: Option<u32>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
 }
@@ -986,40 +987,33 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
-            let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
-                .map_err(|_| anyhow!("invalid nc format"))?;
-
-            if nc_value > MAX_NC_VALUE {
-                info!("digest nc value too large");
-                return Ok(None);
-            }
+        // The nonce-count is only recorded once the digest itself has been
+        // verified (see `record_nonce_use`): a request that fails
+        // authentication must not move the replay window.
+        if !self.nonce_manager.verify(nonce) {
+            info!("digest nonce invalid/expired");
+            return Ok(None);
+        }
+        let nc_value = match nc {
+            Some(nc_str) => {
+                let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
+                    .map_err(|_| anyhow!("invalid nc format"))?;
 
-            if !self
-                .nonce_manager
-                .is_nc_jump_reasonable(nonce.as_str(), nc_value)
-            {
-                info!("digest nc jump too large");
-                return Ok(None);
-            }
+                if nc_value > MAX_NC_VALUE {
+                    info!("digest nc value too large");
+                    return Ok(None);
+                }
 
-            if !self.nonce_manager.verify_with_nc(
-                nonce,
-                nc_value,
-                request.method(),
-                request.uri().as_str(),
-                request.body(),
-            ) {
-                info!("digest nonce invalid/expired, nc decreasing (replay), or request hash mismatch (different request with same nc)");
-                return Ok(None);
-            }
-            Some(nc_value)
-        } else {
-            if !self.nonce_manager.verify(nonce) {
-                info!("digest nonce invalid/expired");
-                return Ok(None);
+                if !self
+                    .nonce_manager
+                    .is_nc_jump_reasonable(nonce.as_str(), nc_value)
+                {
+                    info!("digest nc jump too large");
+                    return Ok(None);
+                }
+                Some(nc_value)
             }
-            None
+            None => None,
         };
 
         Ok(Some(DigestParams {
@@ -1029,10 +1023,31 @@ impl<S> DigestAuthenticator<S> {
             uri: uri.clone(),
             response: response.clone(),
             nc_raw: nc.cloned(),
+            nc_value,
             cnonce: cnonce.cloned(),
             qop,
         }))
     }
+
+    /// Records the use of the nonce by an authenticated request, refusing
+    /// replays (nonce-count not increasing, unless it is a retransmission of
+    /// the same request) and nonces that expired meanwhile.
+    fn record_nonce_use(&self, request: &Request, params: &DigestParams) -> bool {
+        let accepted = match params.nc_value {
+            Some(nc_value) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc_value,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => self.nonce_manager.verify(params.nonce.as_str()),
+        };
+        if !accepted {
+            info!("digest nonce invalid/expired, nc decreasing (replay), or request hash mismatch (different request with same nc)");
+        }
+        accepted
+    }
 }
 
 impl<S> DigestAuthenticator<S> {
@@ -1365,7 +1380,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         Ok(constant_time_eq(
             response_calc.as_bytes(),
             params.response.as_bytes(),
-        ))
+        ) && self.record_nonce_use(request, &params))
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1428,7 +1443,7 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
         Ok(constant_time_eq(
             response_calc.as_bytes(),
             params.response.as_bytes(),
-        ))
+        ) && self.record_nonce_use(request, &params))
     }
 }
 
@@ -1616,6 +1631,9 @@ impl<S: CredentialStore> DigestAuthenticator<S> {
             Some(p) => p,
             None => return Ok(None),
         };
+        if !self.record_nonce_use(request, &params) {
+            return Ok(None);
+        }
         // Authentication-Info rspauth requires qop — without it the
         // header's format is undefined in RFC 7616.
         let Some(qop) = params.qop else {
-- 
2.43.0


From f4827d0776e9b9811d35291f03655a61ebda00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 017/132] fix: digest challenges carry every Via of the request

---
 crates/sip-auth/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index f69eeb3..e37cd3c 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1138,7 +1138,7 @@ impl<S> DigestAuthenticator<S> {
     pub fn challenge_stale(&self, request: &Request) -> Result<Response> {
         let mut headers = self.build_challenge_with_stale(true);
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1322,7 +1322,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         let mut headers = self.build_challenge();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
-- 
2.43.0


From fcc2f8e577919628cd1db4493bd6eebed0441069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 018/132] fix: digest challenges tag the To header only when
 its parameters lack a tag

---
 crates/sip-auth/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index e37cd3c..736d74c 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -38,7 +38,7 @@ use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sha2::{Digest, Sha256, Sha512};
 use sip_core::{Headers, Method, Request, Response, StatusLine};
-use sip_parse::parse_authorization_header;
+use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::fmt::Write;
@@ -1763,7 +1763,11 @@ impl DigestClient {
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    let has_tag = match parse_to_header(&SmolStr::new(to_header)) {
+        Some(to) => to.tag().is_some(),
+        None => to_header.contains(";tag="),
+    };
+    if has_tag {
         return SmolStr::new(to_header);
     }
 
-- 
2.43.0


From 322bf4e86f7f358e41ef87a5569584ce9480ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 019/132] fix: the nonce limit holds for limits below ten

---
 crates/sip-auth/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 736d74c..6ea5284 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -596,7 +596,7 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                self.remove_oldest((self.max_nonces / 10).max(1)); // Remove 10% of capacity
             }
         }
 
-- 
2.43.0


From 52238060db3af6f50ff386f8b7dfe2318ba42ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 020/132] fix: SHA-512-256 digests use SHA-512/256 as RFC 7616
 requires

---
 crates/sip-auth/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 6ea5284..6fa08f1 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -36,7 +36,7 @@ use async_trait::async_trait;
 use bytes::Bytes;
 use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
-use sha2::{Digest, Sha256, Sha512};
+use sha2::{Digest, Sha256, Sha512, Sha512_256};
 use sip_core::{Headers, Method, Request, Response, StatusLine};
 use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
@@ -1270,12 +1270,10 @@ impl<S> DigestAuthenticator<S> {
             DigestAlgorithm::Md5 => format!("{:x}", md5::compute(data)),
             DigestAlgorithm::Sha256 => hex::encode(Sha256::digest(data)),
             DigestAlgorithm::Sha512 => hex::encode(Sha512::digest(data)),
-            // RFC 7616 §6.1: SHA-512/256 is SHA-512 truncated to the first
-            // 256 bits (32 bytes), hex-encoded as 64 chars. Previously this
-            // variant didn't exist and "SHA-512-256" emitted a 128-char
-            // full SHA-512 hash, so interop with any RFC-compliant peer
-            // silently failed.
-            DigestAlgorithm::Sha512_256 => hex::encode(&Sha512::digest(data)[..32]),
+            // RFC 7616 §6.1: "SHA-512-256" names the SHA-512/256 function of
+            // FIPS 180-4, whose initial values differ from SHA-512's, so it
+            // is not a prefix of the SHA-512 digest.
+            DigestAlgorithm::Sha512_256 => hex::encode(Sha512_256::digest(data)),
             // Base() never returns a `-sess` variant; all four base
             // cases above cover the arms.
             _ => unreachable!("base() returned a sess variant"),
@@ -1877,7 +1875,7 @@ impl DigestClient {
             DigestAlgorithm::Sha512 => hex::encode(Sha512::digest(data)),
             // RFC 7616 §6.1 truncates to the first 256 bits; see note on
             // the sibling `hash` above.
-            DigestAlgorithm::Sha512_256 => hex::encode(&Sha512::digest(data)[..32]),
+            DigestAlgorithm::Sha512_256 => hex::encode(Sha512_256::digest(data)),
             _ => unreachable!("base() returned a sess variant"),
         }
     }
-- 
2.43.0


From aecb73be4d4211d6ef80cebfa0b5ed0d911a18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 021/132] fix: digest verification uses the credentials given
 for its own realm

---
 crates/sip-auth/src/lib.rs | 55 +++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 6fa08f1..b946dd7 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -37,7 +37,7 @@ use bytes::Bytes;
 use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sha2::{Digest, Sha256, Sha512, Sha512_256};
-use sip_core::{Headers, Method, Request, Response, StatusLine};
+use sip_core::{AuthorizationHeader, Headers, Method, Request, Response, StatusLine};
 use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
@@ -870,6 +870,28 @@ impl<S> DigestAuthenticator<S> {
 }
 
 impl<S> DigestAuthenticator<S> {
+    /// The Digest credentials meant for this authenticator. A request that
+    /// crosses several protection domains carries one header per realm
+    /// (RFC 3261 §22.3), so the one naming our realm is preferred.
+    fn presented_credentials(&self, headers: &Headers) -> Option<AuthorizationHeader> {
+        let header_name = if self.proxy_auth {
+            "Proxy-Authorization"
+        } else {
+            "Authorization"
+        };
+        let mut digests = headers
+            .get_all_smol(header_name)
+            .filter_map(parse_authorization_header)
+            .filter(|parsed| parsed.scheme().eq_ignore_ascii_case("Digest"));
+        let first = digests.next()?;
+        if first.param("realm").map(|r| r.as_str()) == Some(self.realm.as_str()) {
+            return Some(first);
+        }
+        digests
+            .find(|parsed| parsed.param("realm").map(|r| r.as_str()) == Some(self.realm.as_str()))
+            .or(Some(first))
+    }
+
     fn prepare_digest(&self, request: &Request, headers: &Headers) -> Result<Option<DigestParams>> {
         if request.body().len() > MAX_BODY_SIZE {
             return Err(anyhow!("request body too large"));
@@ -884,26 +906,11 @@ impl<S> DigestAuthenticator<S> {
             }
         }
 
-        let header_name = if self.proxy_auth {
-            "Proxy-Authorization"
-        } else {
-            "Authorization"
-        };
-
-        let auth_header = match headers.get_smol(header_name) {
-            Some(h) => h,
-            None => return Ok(None),
-        };
-
-        let parsed = match parse_authorization_header(auth_header) {
+        let parsed = match self.presented_credentials(headers) {
             Some(p) => p,
             None => return Ok(None),
         };
 
-        if !parsed.scheme().eq_ignore_ascii_case("Digest") {
-            return Ok(None);
-        }
-
         let username = parsed
             .param("username")
             .ok_or_else(|| anyhow!("missing username"))?;
@@ -1120,17 +1127,9 @@ impl<S> DigestAuthenticator<S> {
     /// The nonce referenced by the request's `Authorization` /
     /// `Proxy-Authorization` Digest header, if one is present and parses.
     fn presented_nonce(&self, request: &Request) -> Option<SmolStr> {
-        let header_name = if self.proxy_auth {
-            "Proxy-Authorization"
-        } else {
-            "Authorization"
-        };
-        let raw = request.headers().get_smol(header_name)?;
-        let parsed = parse_authorization_header(raw)?;
-        if !parsed.scheme().eq_ignore_ascii_case("Digest") {
-            return None;
-        }
-        parsed.param("nonce").cloned()
+        self.presented_credentials(request.headers())?
+            .param("nonce")
+            .cloned()
     }
 
     /// Issues a challenge response with stale=true (RFC 7616 §3.5).
-- 
2.43.0


From 854a3ec5dc3344e767d3d70230c455cec571a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 022/132] fix: the nonce limit also holds when challenges are
 issued concurrently

---
 crates/sip-auth/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index b946dd7..41afcab 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -596,7 +596,10 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest((self.max_nonces / 10).max(1)); // Remove 10% of capacity
+                // Remove 10% of capacity, plus whatever concurrent callers
+                // inserted beyond the limit.
+                let excess = self.nonces.len().saturating_sub(self.max_nonces);
+                self.remove_oldest(excess + (self.max_nonces / 10).max(1));
             }
         }
 
-- 
2.43.0


From a45435bc2fd5795e004972af1998e0c434060244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 023/132] fix: rate limiter refills at exactly the configured
 rate

---
 crates/sip-ratelimit/src/lib.rs | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..f69f145 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -237,6 +237,19 @@ impl RateLimitConfig {
         self.enabled
     }
 
+    /// Exact time after which tokens are added, or `None` when nothing refills.
+    fn refill_interval(&self) -> Option<Duration> {
+        if self.refill_interval_ms == 0
+            || self.tokens_per_refill == 0
+            || self.burst_capacity == 0
+            || self.max_requests == 0
+        {
+            return None;
+        }
+        let nanos = self.window_secs.saturating_mul(1_000_000_000) / self.max_requests as u64;
+        Some(Duration::from_nanos(nanos.max(1)))
+    }
+
     /// Create a disabled rate limiter (allows all requests)
     pub fn disabled() -> Self {
         Self {
@@ -361,22 +374,21 @@ impl TokenBucket {
 
     /// Refill tokens based on elapsed time
     fn refill(&mut self, config: &RateLimitConfig) {
-        if config.refill_interval_ms == 0
-            || config.tokens_per_refill == 0
-            || config.burst_capacity == 0
-        {
+        let Some(interval) = config.refill_interval() else {
             return;
-        }
+        };
 
         let now = Instant::now();
         let elapsed = now.duration_since(self.last_refill);
-        let refill_interval = Duration::from_millis(config.refill_interval_ms);
 
-        if elapsed >= refill_interval {
-            let intervals = elapsed.as_millis() / config.refill_interval_ms as u128;
+        if elapsed >= interval {
+            let intervals = elapsed.as_nanos() / interval.as_nanos();
             let tokens_to_add = (intervals as f64) * (config.tokens_per_refill as f64);
             self.tokens = (self.tokens + tokens_to_add).min(config.burst_capacity as f64);
-            self.last_refill = now;
+            // Keep the unused part of the current interval: dropping it would
+            // starve clients whose requests do not align with the refills.
+            let rest = elapsed.as_nanos() % interval.as_nanos();
+            self.last_refill = now - Duration::from_nanos(rest as u64);
         }
     }
 
@@ -711,10 +723,7 @@ impl RateLimiter {
         let mut bucket = bucket.write();
         bucket.refill(&self.config);
 
-        if self.config.refill_interval_ms == 0
-            || self.config.tokens_per_refill == 0
-            || self.config.burst_capacity == 0
-        {
+        let Some(interval) = self.config.refill_interval() else {
             let reset_at = SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
@@ -726,13 +735,13 @@ impl RateLimiter {
                 reset_at,
                 retry_after: 0,
             });
-        }
+        };
 
         // Calculate when the bucket will be fully refilled
         let time_to_full = if bucket.tokens < self.config.burst_capacity as f64 {
             let tokens_needed = self.config.burst_capacity as f64 - bucket.tokens;
             let refills_needed = (tokens_needed / self.config.tokens_per_refill as f64).ceil();
-            Duration::from_millis(refills_needed as u64 * self.config.refill_interval_ms)
+            (interval * refills_needed as u32).saturating_sub(bucket.last_refill.elapsed())
         } else {
             Duration::from_secs(0)
         };
-- 
2.43.0


From 862c7392fb4db7f52a682ccab60e1947d752c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 024/132] fix: rate limit retry-after is rounded up, so waiting
 that long suffices

---
 crates/sip-ratelimit/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index f69f145..aeb6285 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -746,17 +746,21 @@ impl RateLimiter {
             Duration::from_secs(0)
         };
 
+        // Round up: after `retry_after` seconds the bucket is full.
+        let retry_after =
+            time_to_full.as_secs() + u64::from(time_to_full.subsec_nanos() > 0);
+
         let reset_at = SystemTime::now()
             .duration_since(UNIX_EPOCH)
             .unwrap()
             .as_secs()
-            + time_to_full.as_secs();
+            + retry_after;
 
         Some(RateLimitInfo {
             limit: self.config.max_requests,
             remaining: bucket.tokens as u32,
             reset_at,
-            retry_after: time_to_full.as_secs(),
+            retry_after,
         })
     }
 }
-- 
2.43.0


From 383b56e95cd2f77a186b936a4d578751fea36c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 025/132] fix: refused keys count as rate limit checks

---
 crates/sip-ratelimit/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index aeb6285..56fa57d 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -530,6 +530,9 @@ impl RateLimiter {
     ///
     /// * `key` - Identifier for rate limiting (IP address, username, etc.)
     pub fn check_rate_limit(&self, key: &str) -> bool {
+        // Track total checks
+        let check_count = self.metrics.total_checks.fetch_add(1, Ordering::Relaxed) + 1;
+
         // Validate key for security
         if let Err(e) = validate_key(key) {
             debug!(key, error = %e, "invalid rate limit key");
@@ -540,9 +543,6 @@ impl RateLimiter {
             return false;
         }
 
-        // Track total checks
-        let check_count = self.metrics.total_checks.fetch_add(1, Ordering::Relaxed) + 1;
-
         // If disabled, allow all requests
         if !self.config.enabled {
             self.metrics
-- 
2.43.0


From 6da38f578c1b5d0210304480529c99eebb5a5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 026/132] fix: registration is authorized against the
 credentials that were verified

---
 crates/sip-auth/src/lib.rs      | 14 ++++++++++++++
 crates/sip-registrar/src/lib.rs | 10 ++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 41afcab..10068b9 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -138,6 +138,14 @@ pub trait Authenticator: Send + Sync {
     fn verify(&self, request: &Request, headers: &Headers) -> Result<bool>;
     fn credentials_for(&self, method: &Method, uri: &str) -> Option<Credentials>;
 
+    /// The username of the credentials [`Self::verify`] examines in this
+    /// request. Authorization decisions about a verified request must use
+    /// this name: a request may carry further credentials, for other realms,
+    /// that nobody has checked.
+    fn authenticated_username(&self, request: &Request) -> Option<SmolStr> {
+        extract_auth_username(request.headers())
+    }
+
     /// Returns `true` if the request's Authorization header references a
     /// nonce that this authenticator issued and has since expired.
     ///
@@ -1387,6 +1395,12 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         None
     }
 
+    fn authenticated_username(&self, request: &Request) -> Option<SmolStr> {
+        self.presented_credentials(request.headers())?
+            .param("username")
+            .cloned()
+    }
+
     fn nonce_is_stale(&self, request: &Request) -> bool {
         // Look for our header (Authorization for 401, Proxy-Authorization
         // for 407) and check whether its nonce is one we issued but has
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..16bd448 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1553,13 +1553,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(authenticator) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = authenticator
+                .authenticated_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
@@ -1900,13 +1901,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(authenticator) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = authenticator
+                .authenticated_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
-- 
2.43.0


From c962d5a390f1ad92225a6a067b2209af7350612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 027/132] fix: registrar responses carry every Via and tag the
 To header only when it lacks a tag

---
 crates/sip-registrar/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 16bd448..42f6dd1 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1395,7 +1395,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1630,7 +1630,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
             let mut headers = Headers::new();
 
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -1783,7 +1783,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
         let mut headers = Headers::new();
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1983,7 +1983,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             let mut headers = Headers::new();
 
             // RFC 3261: Copy required headers from request to response
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -2148,7 +2148,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -2216,7 +2216,11 @@ fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> Smo
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    let has_tag = match parse_to_header(&SmolStr::new(to_header)) {
+        Some(to) => to.tag().is_some(),
+        None => to_header.contains(";tag="),
+    };
+    if has_tag {
         return SmolStr::new(to_header);
     }
 
-- 
2.43.0


From 90f480270f3a06ffb10030d3b72aee59e5a0442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 028/132] fix: a user part holding '@' is authorized as a whole

---
 crates/sip-registrar/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 42f6dd1..aa7dcc3 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -319,7 +319,8 @@ pub(crate) fn aor_identity(aor: &str) -> Option<&str> {
         (!number.is_empty()).then_some(number)
     } else {
         // sip/sips: the identity is the user part before '@'.
-        rest.split_once('@').map(|(user, _)| user)
+        // The user part may itself hold a (decoded) '@'; the host cannot.
+        rest.rsplit_once('@').map(|(user, _)| user)
     }
 }
 
-- 
2.43.0


From fcbd3fdcca9f4301a3d5e61f3937694e67e2b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 029/132] fix: registrar reads Contact values with quoted text
 and commas in URIs, and returns bracketed URIs

---
 crates/sip-registrar/src/lib.rs | 51 ++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index aa7dcc3..d073315 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1237,7 +1237,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let trimmed = contact_header.trim();
 
         // Handle <uri> format
-        if let Some(start) = trimmed.find('<') {
+        if let Some(start) = find_unquoted(trimmed, '<') {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactHeaderError::Invalid)?;
@@ -1272,7 +1272,7 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        let params_section = if let Some(start) = trimmed.find('<') {
+        let params_section = if let Some(start) = find_unquoted(trimmed, '<') {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactParamError::Invalid)?;
@@ -1290,8 +1290,18 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        for param in params.split(';') {
-            let param = param.trim();
+        let mut rest = Some(params);
+        while let Some(current) = rest {
+            let param = match find_unquoted(current, ';') {
+                Some(pos) => {
+                    rest = Some(&current[pos + 1..]);
+                    current[..pos].trim()
+                }
+                None => {
+                    rest = None;
+                    current.trim()
+                }
+            };
             if param.is_empty() {
                 continue;
             }
@@ -2202,10 +2212,10 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
 
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
     if expires.as_secs() == 0 {
-        SmolStr::new(format!("{};expires=0", contact_uri))
+        SmolStr::new(format!("<{}>;expires=0", contact_uri))
     } else {
         SmolStr::new(format!(
-            "{};expires={};q={}",
+            "<{}>;expires={};q={}",
             contact_uri,
             expires.as_secs(),
             q_value
@@ -2236,10 +2246,29 @@ fn ensure_to_tag(to_header: &str) -> SmolStr {
     SmolStr::new(format!("{};tag={}", to_header, tag))
 }
 
+/// Position of the first `wanted` outside quoted strings.
+fn find_unquoted(input: &str, wanted: char) -> Option<usize> {
+    let mut in_quotes = false;
+    let mut escape_next = false;
+    for (pos, ch) in input.char_indices() {
+        if escape_next {
+            escape_next = false;
+        } else if in_quotes && ch == '\\' {
+            escape_next = true;
+        } else if ch == '"' {
+            in_quotes = !in_quotes;
+        } else if ch == wanted && !in_quotes {
+            return Some(pos);
+        }
+    }
+    None
+}
+
 fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_brackets = false;
     let mut escape_next = false;
 
     for ch in input.chars() {
@@ -2257,7 +2286,15 @@ fn split_quoted_commas(input: &str) -> Vec<String> {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' if !in_quotes => {
+                in_brackets = true;
+                current.push(ch);
+            }
+            '>' if !in_quotes => {
+                in_brackets = false;
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_brackets => {
                 if !current.trim().is_empty() {
                     parts.push(current.trim().to_owned());
                 }
-- 
2.43.0


From 66ce3876a08bdc0190afd8475b7c8e37dc6663e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 030/132] fix: a REGISTER takes effect as a whole or not at all

---
 crates/sip-registrar/src/lib.rs | 72 ++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index d073315..601c79f 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1685,6 +1685,9 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
         }
 
+        // Every Contact is checked before any binding changes: a REGISTER takes
+        // effect as a whole or not at all (RFC 3261 §10.3).
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::with_capacity(contacts.len());
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -1765,8 +1768,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                self.store.remove(&aor, contact_uri.as_str()).await?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
                 let mut binding =
                     Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
@@ -1787,8 +1789,33 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding).await?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
+            }
+        }
+
+        for (done, (contact_uri, update)) in updates.iter().enumerate() {
+            let applied = match update {
+                Some(binding) => self.store.upsert(binding.clone()).await,
+                None => self.store.remove(&aor, contact_uri.as_str()).await,
+            };
+            if let Err(e) = applied {
+                // Back out what this request already changed.
+                for (contact_uri, _) in updates[..=done].iter().rev() {
+                    let restored = match existing_by_contact.get(contact_uri) {
+                        Some(previous) => self.store.upsert(previous.clone()).await,
+                        None => self.store.remove(&aor, contact_uri.as_str()).await,
+                    };
+                    if let Err(e) = restored {
+                        warn!(aor = %aor, contact = %contact_uri, "REGISTER could not be backed out: {}", e);
+                    }
+                }
+                return Err(e);
+            }
+            match update {
+                Some(binding) => {
+                    info!(aor = %aor, contact = %contact_uri, expires = %binding.expires().as_secs(), "REGISTER stored binding");
+                }
+                None => info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding"),
             }
         }
 
@@ -2045,6 +2072,9 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             existing_by_contact.insert(binding.contact.clone(), binding);
         }
 
+        // Every Contact is checked before any binding changes: a REGISTER takes
+        // effect as a whole or not at all (RFC 3261 §10.3).
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::with_capacity(contacts.len());
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -2126,11 +2156,8 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                // Remove binding
-                self.store.remove(&aor, contact_uri.as_str())?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
-                // Add or update binding
                 let mut binding =
                     Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
                         .with_call_id(call_id.clone())?
@@ -2150,8 +2177,33 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding)?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
+            }
+        }
+
+        for (done, (contact_uri, update)) in updates.iter().enumerate() {
+            let applied = match update {
+                Some(binding) => self.store.upsert(binding.clone()),
+                None => self.store.remove(&aor, contact_uri.as_str()),
+            };
+            if let Err(e) = applied {
+                // Back out what this request already changed.
+                for (contact_uri, _) in updates[..=done].iter().rev() {
+                    let restored = match existing_by_contact.get(contact_uri) {
+                        Some(previous) => self.store.upsert(previous.clone()),
+                        None => self.store.remove(&aor, contact_uri.as_str()),
+                    };
+                    if let Err(e) = restored {
+                        warn!(aor = %aor, contact = %contact_uri, "REGISTER could not be backed out: {}", e);
+                    }
+                }
+                return Err(e);
+            }
+            match update {
+                Some(binding) => {
+                    info!(aor = %aor, contact = %contact_uri, expires = %binding.expires().as_secs(), "REGISTER stored binding");
+                }
+                None => info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding"),
             }
         }
 
-- 
2.43.0


From 9f85c3cd002b9d97a51a06a75dea2b19e847beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 031/132] fix: an outdated wildcard REGISTER removes nothing

---
 crates/sip-registrar/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 601c79f..9937575 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1636,6 +1636,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            // RFC 3261 §10.3: an older REGISTER of the same Call-ID removes nothing.
+            let existing = self.store.lookup(&aor).await?;
+            if existing
+                .iter()
+                .any(|b| b.call_id() == call_id.as_str() && cseq <= b.cseq())
+            {
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
+            }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -2015,6 +2023,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 );
             }
             // Remove all bindings for this AOR
+            // RFC 3261 §10.3: an older REGISTER of the same Call-ID removes nothing.
+            let existing = self.store.lookup(&aor)?;
+            if existing
+                .iter()
+                .any(|b| b.call_id() == call_id.as_str() && cseq <= b.cseq())
+            {
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
+            }
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
-- 
2.43.0


From 5503a0815db2f50210e15f458eaec7520c12adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 032/132] fix: refreshes are accepted at the binding limits and
 expired bindings do not count towards them

---
 crates/sip-registrar/src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 9937575..3a65342 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -860,12 +860,23 @@ impl LocationStore for MemoryLocationStore {
         let expires_at = Instant::now() + binding.expires();
         let aor_key = SmolStr::new(binding.aor());
 
+        // Refreshing a binding does not add one.
+        let now = Instant::now();
+        let refresh = self.inner.get(&aor_key).is_some_and(|list| {
+            list.iter()
+                .any(|b| b.contact == binding.contact() && b.expires_at > now)
+        });
+
         // Check total bindings limit (DoS prevention)
-        let total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
-        if total_bindings >= MAX_TOTAL_BINDINGS {
-            return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
-                max: MAX_TOTAL_BINDINGS,
-            }));
+        let total = || -> usize { self.inner.iter().map(|entry| entry.len()).sum() };
+        if !refresh && total() >= MAX_TOTAL_BINDINGS {
+            // Expired bindings do not count.
+            LocationStore::cleanup_expired(self)?;
+            if total() >= MAX_TOTAL_BINDINGS {
+                return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
+                    max: MAX_TOTAL_BINDINGS,
+                }));
+            }
         }
 
         let mut list = self.inner.entry(aor_key.clone()).or_default();
@@ -874,7 +885,7 @@ impl LocationStore for MemoryLocationStore {
         // Don't count the binding we're about to replace
         let existing_count = list
             .iter()
-            .filter(|b| b.contact != binding.contact())
+            .filter(|b| b.contact != binding.contact() && b.expires_at > now)
             .count();
         if existing_count >= MAX_BINDINGS_PER_AOR {
             return Err(anyhow::anyhow!(RegistrationError::TooManyBindingsForAor {
@@ -884,7 +895,7 @@ impl LocationStore for MemoryLocationStore {
         }
 
         // Remove existing binding with same contact
-        list.retain(|b| b.contact != binding.contact());
+        list.retain(|b| b.contact != binding.contact() && b.expires_at > now);
 
         // Add new binding
         list.push(StoredBinding {
-- 
2.43.0


From 681b581d316d65d576c9324ff29f07370716629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 033/132] fix: concurrent REGISTERs for one AOR are processed
 one after another

---
 crates/sip-registrar/src/lib.rs | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 3a65342..4a651e6 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1029,6 +1029,42 @@ pub struct BasicRegistrar<S, A> {
     /// This is how the registrar advertises RFC 5626 / RFC 3327
     /// capability to the UA, enabling flow-aware routing.
     advertise_outbound_and_path: bool,
+    update_locks: UpdateLocks,
+}
+
+/// Serialises the read-check-update sequence of REGISTERs for one AOR, so
+/// that an older request cannot overwrite a newer one it did not see.
+struct UpdateLocks {
+    blocking: Vec<std::sync::Mutex<()>>,
+    awaiting: Vec<tokio::sync::Mutex<()>>,
+}
+
+impl UpdateLocks {
+    const STRIPES: usize = 64;
+
+    fn new() -> Self {
+        Self {
+            blocking: (0..Self::STRIPES).map(|_| Default::default()).collect(),
+            awaiting: (0..Self::STRIPES).map(|_| Default::default()).collect(),
+        }
+    }
+
+    fn stripe(aor: &str) -> usize {
+        use std::hash::{Hash, Hasher};
+        let mut hasher = std::collections::hash_map::DefaultHasher::new();
+        aor.hash(&mut hasher);
+        hasher.finish() as usize % Self::STRIPES
+    }
+
+    fn lock(&self, aor: &str) -> std::sync::MutexGuard<'_, ()> {
+        self.blocking[Self::stripe(aor)]
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
+    }
+
+    async fn lock_async(&self, aor: &str) -> tokio::sync::MutexGuard<'_, ()> {
+        self.awaiting[Self::stripe(aor)].lock().await
+    }
 }
 
 impl<S, A> BasicRegistrar<S, A> {
@@ -1043,6 +1079,7 @@ impl<S, A> BasicRegistrar<S, A> {
             rate_limit_key_fn: None,
             service_route: None,
             advertise_outbound_and_path: false,
+            update_locks: UpdateLocks::new(),
         }
     }
 
@@ -1612,6 +1649,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             Err(response) => return Ok(response),
         };
 
+        let _updating = self.update_locks.lock_async(&aor).await;
         let contacts = contact_headers(request.headers());
         if contacts.is_empty() {
             warn!("REGISTER missing Contact header");
@@ -1997,6 +2035,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         };
 
         // Get all Contact headers
+        let _updating = self.update_locks.lock(&aor);
         let contacts = contact_headers(request.headers());
         if contacts.is_empty() {
             warn!("REGISTER missing Contact header");
-- 
2.43.0


From 839564de9017140282fe7cc3a3e641e079664ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 034/132] fix: registrar Date headers are in GMT as SIP
 requires

---
 crates/sip-registrar/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 4a651e6..acbea42 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1715,7 +1715,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             headers.push(SmolStr::new("Contact"), SmolStr::new("*"))?;
-            headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+            headers.push(SmolStr::new("Date"), sip_date_now())?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
             return Ok(Response::new(
@@ -1903,7 +1903,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         }
 
         self.append_extensions(&mut headers, &bindings)?;
-        headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+        headers.push(SmolStr::new("Date"), sip_date_now())?;
         headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
         Ok(Response::new(
@@ -2105,7 +2105,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             }
 
             headers.push(SmolStr::new("Contact"), SmolStr::new("*"))?;
-            headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+            headers.push(SmolStr::new("Date"), sip_date_now())?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
             return Ok(Response::new(
@@ -2303,7 +2303,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         }
 
         self.append_extensions(&mut headers, &bindings)?;
-        headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+        headers.push(SmolStr::new("Date"), sip_date_now())?;
         headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
         Ok(Response::new(
@@ -2328,6 +2328,11 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
     contacts
 }
 
+/// The current time as a SIP-date (RFC 3261 §20.17), which is always GMT.
+fn sip_date_now() -> SmolStr {
+    SmolStr::new(Utc::now().format("%a, %d %b %Y %H:%M:%S GMT").to_string())
+}
+
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
     if expires.as_secs() == 0 {
         SmolStr::new(format!("<{}>;expires=0", contact_uri))
-- 
2.43.0


From 5c828ee1dd9c84c765816ec9ee29e9b0f8537c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 035/132] fix: the tel scheme is accepted in any letter case

---
 crates/sip-core/src/tel_uri.rs | 8 +++++---
 crates/sip-core/src/uri.rs     | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 55687d1..9524224 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -356,9 +356,11 @@ impl TelUri {
         let raw = SmolStr::new(input);
 
         // Must start with "tel:"
-        let rest = input
-            .strip_prefix("tel:")
-            .ok_or(TelUriError::InvalidScheme)?;
+        // (schemes are case-insensitive, RFC 3986 §3.1)
+        let rest = match input.split_once(':') {
+            Some((scheme, rest)) if scheme.eq_ignore_ascii_case("tel") => rest,
+            _ => return Err(TelUriError::InvalidScheme),
+        };
 
         // Split into number and parameters
         let mut parts = rest.split(';');
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 6a53fa6..6ee1e29 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -599,7 +599,7 @@ impl Uri {
         // Try tel URI first (more specific prefix)
         // Schemes are case-insensitive (RFC 3986 §3.1).
         let scheme = input.split(':').next().unwrap_or_default();
-        if input.starts_with("tel:") {
+        if scheme.eq_ignore_ascii_case("tel") && input.contains(':') {
             TelUri::parse(input)
                 .map(Uri::Tel)
                 .map_err(|e| UriError::InvalidFormat(e.to_string()))
-- 
2.43.0


From 61c95390a65612dfadedc4920e9ae5e0523f5418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 036/132] fix: nonce replay fingerprints separate the request
 URI from the body

---
 crates/sip-auth/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 10068b9..b6d834d 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -502,6 +502,8 @@ impl Nonce {
         let mut ctx = Sha256::new();
         ctx.update(method.as_str().as_bytes());
         ctx.update(b":");
+        // The length keeps a ':' in the URI apart from the separator.
+        ctx.update((uri.len() as u64).to_be_bytes());
         ctx.update(uri.as_bytes());
         ctx.update(b":");
         ctx.update(body);
-- 
2.43.0


From 28c2d03d462674af5c84532a6de1fb65180864fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 037/132] fix: dialog tags, targets and routes ignore quoted
 text and never panic

---
 crates/sip-dialog/src/lib.rs | 54 +++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..2647577 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1213,14 +1213,40 @@ fn validate_subscription_cseq(cseq: u32) -> Result<(), SubscriptionError> {
 /// Returns `None` if the header carries no tag (e.g. the To header of an
 /// out-of-dialog request). Matching is case-insensitive per RFC 3261 §7.3.1.
 pub fn extract_tag(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
-        let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
+    // Only header parameters count: a ";tag=" inside a quoted string or
+    // inside the angle-bracketed URI is not one.
+    let mut rest = match find_unquoted(value, '<') {
+        Some(open) => &value[open + value[open..].find('>')? + 1..],
+        None => value.as_str(),
+    };
+    while let Some(start) = find_unquoted(rest, ';') {
+        rest = &rest[start + 1..];
+        let end = find_unquoted(rest, ';').unwrap_or(rest.len());
+        if let Some((name, tag)) = rest[..end].split_once('=') {
+            if name.trim().eq_ignore_ascii_case("tag") {
+                return Some(SmolStr::new(tag.trim()));
+            }
         }
-    })
+    }
+    None
+}
+
+/// Byte offset of the first `wanted` outside quoted strings.
+fn find_unquoted(value: &str, wanted: char) -> Option<usize> {
+    let mut in_quotes = false;
+    let mut escaped = false;
+    for (idx, ch) in value.char_indices() {
+        if escaped {
+            escaped = false;
+        } else if in_quotes && ch == '\\' {
+            escaped = true;
+        } else if ch == '"' {
+            in_quotes = !in_quotes;
+        } else if ch == wanted && !in_quotes {
+            return Some(idx);
+        }
+    }
+    None
 }
 
 /// Builds a dialog route set from Record-Route headers.
@@ -1291,7 +1317,7 @@ fn extract_session_timer(resp: &Response) -> (Option<Duration>, Option<Refresher
 /// Parses URI from header value (handles angle brackets).
 fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
     let trimmed = raw.trim();
-    let uri_part = if let Some(start) = trimmed.find('<') {
+    let uri_part = if let Some(start) = find_unquoted(trimmed, '<') {
         let end = trimmed[start + 1..].find('>')?;
         &trimmed[start + 1..start + 1 + end]
     } else {
@@ -1305,18 +1331,26 @@ fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
 fn split_header_values(raw: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut angle_depth = 0usize;
     let mut start = 0usize;
 
     for (idx, ch) in raw.char_indices() {
+        if escaped {
+            escaped = false;
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => {
+                escaped = true;
+            }
             '"' => {
                 in_quotes = !in_quotes;
             }
-            '<' => {
+            '<' if !in_quotes => {
                 angle_depth = angle_depth.saturating_add(1);
             }
-            '>' => {
+            '>' if !in_quotes => {
                 angle_depth = angle_depth.saturating_sub(1);
             }
             ',' if !in_quotes && angle_depth == 0 => {
-- 
2.43.0


From 5357a565ed4ac0b51654a60e373d61216b323f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 038/132] fix: event package validation does not panic on
 non-ASCII parameters

---
 crates/sip-dialog/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 2647577..dffc155 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1141,7 +1141,10 @@ fn validate_event_package(event: &str) -> Result<(), SubscriptionError> {
     }
     for param in parts {
         let trimmed = param.trim();
-        if trimmed.len() >= 3 && trimmed[..3].eq_ignore_ascii_case("id=") {
+        let is_id = trimmed
+            .get(..3)
+            .is_some_and(|name| name.eq_ignore_ascii_case("id="));
+        if is_id {
             let id = trimmed[3..].trim().trim_matches('"');
             if id.len() > MAX_EVENT_ID_LENGTH {
                 return Err(SubscriptionError::EventTooLong {
-- 
2.43.0


From f7fcabaf535c389c4c735c91642ea7300dc8b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 039/132] fix: only target refresh requests and successes move
 a dialog's remote target

---
 crates/sip-dialog/src/lib.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index dffc155..ea71931 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -583,9 +583,17 @@ impl Dialog {
     /// → Future SUBSCRIBE refreshes use new remote_target
     /// ```
     pub fn update_from_response(&mut self, resp: &Response) {
+        // A failed request leaves the dialog's target, routes and timer alone
+        // (a 3xx Contact names alternatives, not the peer's new address).
+        if resp.code() >= 300 {
+            return;
+        }
+
         // Update remote target if Contact present
-        if let Some(contact) = extract_contact_uri(resp.headers()) {
-            self.remote_target = contact;
+        if cseq_method_refreshes_target(resp.headers()) {
+            if let Some(contact) = extract_contact_uri(resp.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         // Recompute the route set only when this 2xx confirms an early
@@ -666,8 +674,10 @@ impl Dialog {
         }
 
         // Update remote target from Contact
-        if let Some(contact) = extract_contact_uri(req.headers()) {
-            self.remote_target = contact;
+        if refreshes_target(req.method().as_str()) {
+            if let Some(contact) = extract_contact_uri(req.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         Ok(())
@@ -1290,6 +1300,22 @@ fn build_route_set(headers: &Headers, reverse: bool) -> Result<Vec<SipUri>, Dial
     Ok(routes)
 }
 
+/// Returns true for the methods whose Contact refreshes the remote target of a
+/// dialog (RFC 5057 §5.2).
+fn refreshes_target(method: &str) -> bool {
+    matches!(
+        method,
+        "INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER"
+    )
+}
+
+/// Applies [`refreshes_target`] to the method a response's CSeq names.
+fn cseq_method_refreshes_target(headers: &Headers) -> bool {
+    header(headers, "CSeq")
+        .and_then(|cseq| cseq.split_whitespace().nth(1))
+        .is_none_or(refreshes_target)
+}
+
 /// Extracts Contact URI from headers.
 fn extract_contact_uri(headers: &Headers) -> Option<SipUri> {
     header(headers, "Contact").and_then(|raw| parse_uri_from_header(raw.as_str()))
-- 
2.43.0


From c330164128675fa561121ee802388b037cf5aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 040/132] fix: dialog session timer updates stay within the
 documented range

---
 crates/sip-dialog/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index ea71931..189ec51 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -619,7 +619,7 @@ impl Dialog {
 
         // Update session timer if present
         let (session_expires, refresher) = extract_session_timer(resp);
-        if session_expires.is_some() {
+        if session_expires.is_some_and(|expires| validate_session_expires(expires).is_ok()) {
             self.session_expires = session_expires;
             self.refresher = refresher;
         }
@@ -1099,7 +1099,7 @@ fn validate_cseq_increment(prev: u32, new: u32) -> Result<(), DialogError> {
 
 /// Validates session expires duration is within bounds.
 fn validate_session_expires(duration: Duration) -> Result<(), DialogError> {
-    let secs = duration.as_secs() as u32;
+    let secs = u32::try_from(duration.as_secs()).unwrap_or(u32::MAX);
     if secs < MIN_SESSION_EXPIRES {
         return Err(DialogError::SessionExpiresTooSmall {
             min: MIN_SESSION_EXPIRES,
-- 
2.43.0


From 63db46740a69def615668b0d70d87fc13668ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 041/132] fix: an ACK matches the INVITE it acknowledges, not
 the latest request

---
 crates/sip-dialog/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 189ec51..d7eefe7 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -283,6 +283,9 @@ pub struct Dialog {
     /// Last ACK CSeq number (tracked separately to prevent replay)
     last_ack_cseq: Option<u32>,
 
+    /// CSeq of the peer's latest INVITE (0 if none), which its ACK repeats
+    remote_invite_cseq: u32,
+
     /// Local URI (our identity)
     local_uri: SipUri,
 
@@ -356,6 +359,7 @@ impl Dialog {
             local_cseq,
             remote_cseq,
             last_ack_cseq: None,
+            remote_invite_cseq: 0,
             local_uri,
             remote_uri,
             secure,
@@ -419,6 +423,7 @@ impl Dialog {
             local_cseq,
             remote_cseq,
             last_ack_cseq: None,
+            remote_invite_cseq: remote_cseq,
             local_uri,
             remote_uri,
             secure,
@@ -527,6 +532,7 @@ impl Dialog {
             local_cseq,
             remote_cseq,
             last_ack_cseq,
+            remote_invite_cseq: remote_cseq,
             route_set,
             secure,
             session_expires,
@@ -658,7 +664,8 @@ impl Dialog {
 
         if req.method().as_str() == "ACK" {
             // ACK for an INVITE dialog must reuse the INVITE's CSeq.
-            if cseq != self.remote_cseq || self.remote_cseq == 0 {
+            // (other requests may have followed that INVITE)
+            if cseq != self.remote_invite_cseq {
                 return Err(DialogError::InvalidCSeq);
             }
 
@@ -671,6 +678,9 @@ impl Dialog {
                 validate_cseq_increment(self.remote_cseq, cseq)?;
             }
             self.remote_cseq = cseq;
+            if req.method().as_str() == "INVITE" {
+                self.remote_invite_cseq = cseq;
+            }
         }
 
         // Update remote target from Contact
-- 
2.43.0


From 98da5e6dc9f2825ace5a2410b38de62d0e52c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 042/132] fix: a full dialog manager still updates its dialogs,
 and its counters balance

---
 crates/sip-dialog/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index d7eefe7..89f862f 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -748,7 +748,7 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS && !self.dialogs.contains_key(&dialog.id) {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -769,8 +769,9 @@ impl DialogManager {
                 });
             }
         }
-        self.dialogs.insert(dialog.id.clone(), dialog);
-        self.metrics.record_created();
+        if self.dialogs.insert(dialog.id.clone(), dialog).is_none() {
+            self.metrics.record_created();
+        }
         Ok(())
     }
 
@@ -807,8 +808,13 @@ impl DialogManager {
 
     /// Removes all terminated dialogs.
     pub fn cleanup_terminated(&self) {
-        self.dialogs
-            .retain(|_, dialog| dialog.state != DialogStateType::Terminated);
+        self.dialogs.retain(|_, dialog| {
+            let keep = dialog.state != DialogStateType::Terminated;
+            if !keep {
+                self.metrics.record_terminated();
+            }
+            keep
+        });
     }
 
     /// Finds a dialog by its SIP Call-ID header value.
-- 
2.43.0


From ded045f733f0c1493bee28706237a8d1e8bd1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 043/132] fix: a full subscription manager still updates; CSeq
 counting cannot overflow

---
 crates/sip-dialog/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 89f862f..664cac3 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1712,7 +1712,7 @@ impl Subscription {
 
     /// Returns the next local CSeq number and increments it.
     pub fn next_local_cseq(&mut self) -> u32 {
-        self.local_cseq += 1;
+        self.local_cseq = self.local_cseq.saturating_add(1);
         self.local_cseq
     }
 
@@ -1754,7 +1754,9 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
-- 
2.43.0


From b7b305f7d55f49dc445a55ef7f49b9fb73a9d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 044/132] fix: the dialog store's Call-ID index lists each
 stored dialog exactly once

---
 crates/sip-dialog/src/storage.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..ebca286 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -4,6 +4,7 @@
 
 use crate::{Dialog, DialogId};
 use async_trait::async_trait;
+use dashmap::mapref::entry::Entry;
 use smol_str::SmolStr;
 
 /// Maximum number of dialogs in the in-memory store to prevent memory exhaustion.
@@ -60,19 +61,20 @@ impl DialogStore for InMemoryDialogStore {
         }
         let call_id = dialog.id.call_id.clone();
         let dialog_id = dialog.id.clone();
+        // The index entry's lock covers both maps, so they cannot disagree.
+        let mut ids = self.by_call_id.entry(call_id).or_default();
         self.inner.insert(dialog.id.clone(), dialog);
-        // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        if !ids.contains(&dialog_id) {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
-        self.inner.remove(id);
-        // Update secondary index
-        if let Some(mut ids) = self.by_call_id.get_mut(&id.call_id) {
-            ids.retain(|did| did != id);
-            if ids.is_empty() {
-                drop(ids);
-                self.by_call_id.remove(&id.call_id);
+        if let Entry::Occupied(mut ids) = self.by_call_id.entry(id.call_id.clone()) {
+            self.inner.remove(id);
+            ids.get_mut().retain(|did| did != id);
+            if ids.get().is_empty() {
+                ids.remove();
             }
         }
     }
-- 
2.43.0


From 90bb21e08aed15bfb6356449fba4e9140cf5050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 045/132] fix: refresher roles compare without letter case

---
 crates/sip-dialog/src/session_timer_manager.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..936337a 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -390,10 +390,8 @@ pub fn negotiate_session_expires(
 /// `true` if we are the refresher, `false` otherwise
 pub fn determine_refresher_role(refresher_param: Option<&str>, is_uac: bool) -> bool {
     match refresher_param {
-        Some("uac") => is_uac,
-        Some("uas") => !is_uac,
-        Some("UAC") => is_uac, // Case insensitive
-        Some("UAS") => !is_uac,
+        Some(role) if role.eq_ignore_ascii_case("uac") => is_uac,
+        Some(role) if role.eq_ignore_ascii_case("uas") => !is_uac,
         _ => is_uac, // Default: UAC is refresher if not specified
     }
 }
-- 
2.43.0


From f8a78c12ce5e13a0c122a2f79af53eef8b17599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 046/132] fix: a replaced session timer neither fires nor
 removes its successor

---
 .../sip-dialog/src/session_timer_manager.rs   | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index 936337a..9c25a01 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -42,6 +42,7 @@
 
 use crate::DialogId;
 use dashmap::DashMap;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -72,6 +73,9 @@ pub enum SessionTimerEvent {
 /// Session timer task tracking.
 #[derive(Debug)]
 struct SessionTimerTask {
+    /// Tells this timer from a later one for the same dialog
+    generation: u64,
+
     /// When the session expires
     expiry_time: Instant,
     /// Task cancellation handle
@@ -90,6 +94,9 @@ pub struct SessionTimerManager {
     event_tx: Arc<mpsc::UnboundedSender<SessionTimerEvent>>,
     /// Receiver stored for cloning
     event_rx: Arc<tokio::sync::Mutex<mpsc::UnboundedReceiver<SessionTimerEvent>>>,
+
+    /// Number of timers started so far
+    generations: Arc<AtomicU64>,
 }
 
 impl SessionTimerManager {
@@ -100,6 +107,7 @@ impl SessionTimerManager {
             tasks: Arc::new(DashMap::new()),
             event_tx: Arc::new(event_tx),
             event_rx: Arc::new(tokio::sync::Mutex::new(event_rx)),
+            generations: Arc::new(AtomicU64::new(0)),
         }
     }
 
@@ -126,7 +134,9 @@ impl SessionTimerManager {
         let expiry_time = Instant::now() + session_expires;
         let (cancel_tx, mut cancel_rx) = mpsc::channel(SESSION_TIMER_CHANNEL_BOUND);
 
+        let generation = self.generations.fetch_add(1, Ordering::Relaxed);
         let task = SessionTimerTask {
+            generation,
             expiry_time,
             cancel_tx: Some(cancel_tx),
         };
@@ -146,7 +156,14 @@ impl SessionTimerManager {
             if is_refresher {
                 tokio::select! {
                     _ = sleep(refresh_duration) => {
-                        // Emit refresh needed event
+                        // Emit refresh needed event, unless this timer was
+                        // stopped or replaced just as it came due
+                        let current = tasks_ref
+                            .get(&dialog_id_clone)
+                            .is_some_and(|task| task.generation == generation);
+                        if !current {
+                            return;
+                        }
                         let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
                     }
                     _ = cancel_rx.recv() => {
@@ -165,11 +182,15 @@ impl SessionTimerManager {
 
             tokio::select! {
                 _ = sleep(remaining) => {
-                    // Session expired - emit expiration event
-                    let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                    // Remove task from tracking, unless this timer was
+                    // stopped or replaced just as it came due
+                    let removed = tasks_ref
+                        .remove_if(&dialog_id_clone, |_, task| task.generation == generation);
 
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
+                    // Session expired - emit expiration event
+                    if removed.is_some() {
+                        let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                    }
                 }
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
-- 
2.43.0


From 3bcd182a0d5b2d77e614df67bb146cc0112daf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 047/132] fix: SDP lines are parsed one at a time and to their
 end

---
 crates/sip-sdp/src/parse.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 52ec09f..c220806 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -10,9 +10,9 @@ use crate::*;
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_till},
-    character::complete::{char, digit1, line_ending, space1},
+    character::complete::{char, digit1, space1},
     combinator::{map, map_res, opt},
-    multi::{many0, separated_list0},
+    multi::separated_list0,
     sequence::{preceded, terminated, tuple},
     IResult,
 };
@@ -109,16 +109,7 @@ pub fn parse_sdp_with_limits(
     }
 
     // Parse all lines into a structured format first
-    let (remaining, lines) =
-        parse_sdp_lines(input).map_err(|e| ParseError::ParseFailed(e.to_string()))?;
-
-    // Check if there's unparsed input (should be empty or just whitespace)
-    if !remaining.trim().is_empty() {
-        return Err(ParseError::ParseFailed(format!(
-            "Unparsed input remaining: {}",
-            remaining
-        )));
-    }
+    let lines = parse_sdp_lines(input)?;
 
     // Build SessionDescription from parsed lines
     build_session_description(lines, &limits)
@@ -160,8 +151,26 @@ struct MediaBlock {
 }
 
 /// Parse all SDP lines
-fn parse_sdp_lines(input: &str) -> IResult<&str, Vec<SdpLine>> {
-    many0(terminated(parse_line, opt(line_ending)))(input)
+///
+/// Each line is parsed on its own, so no field can run on into the next
+/// line and nothing may follow a complete field on its line.
+fn parse_sdp_lines(input: &str) -> Result<Vec<SdpLine>, ParseError> {
+    let mut lines = Vec::new();
+    for line in input.lines() {
+        if line.trim().is_empty() {
+            continue;
+        }
+        let (remaining, parsed) =
+            parse_line(line).map_err(|e| ParseError::ParseFailed(e.to_string()))?;
+        if !remaining.trim().is_empty() {
+            return Err(ParseError::ParseFailed(format!(
+                "Unparsed input remaining: {}",
+                remaining
+            )));
+        }
+        lines.push(parsed);
+    }
+    Ok(lines)
 }
 
 /// Parse a single SDP line
-- 
2.43.0


From 56d5e40958172e647733e5ad3bd8d237939f5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 048/132] fix: media protocols that begin like another one are
 parsed

---
 crates/sip-sdp/src/parse.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index c220806..9206104 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -491,23 +491,23 @@ fn parse_port(input: &str) -> IResult<&str, (u16, Option<u16>)> {
 
 /// Parse protocol: RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP, TCP, etc.
 fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
-    alt((
-        // WebRTC protocols (longest first to avoid partial matches)
-        map(tag("UDP/TLS/RTP/SAVPF"), |_| Protocol::UdpTlsRtpSavpf),
-        map(tag("TCP/TLS/RTP/SAVPF"), |_| Protocol::TcpTlsRtpSavpf),
-        map(tag("RTP/SAVPF"), |_| Protocol::RtpSavpf),
-        // Traditional RTP protocols
-        map(tag("RTP/SAVP"), |_| Protocol::RtpSavp),
-        map(tag("RTP/AVP"), |_| Protocol::RtpAvp),
-        // Basic protocols
-        map(tag("UDP"), |_| Protocol::Udp),
-        map(tag("TCP"), |_| Protocol::Tcp),
-        // Fallback for unknown protocols
-        map(
-            take_till(|c| c == ' ' || c == '\r' || c == '\n'),
-            |s: &str| Protocol::Other(SmolStr::new(s)),
-        ),
-    ))(input)
+    map(
+        take_till(|c| c == ' ' || c == '\r' || c == '\n'),
+        |token: &str| match token {
+            // WebRTC protocols
+            "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
+            "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
+            "RTP/SAVPF" => Protocol::RtpSavpf,
+            // Traditional RTP protocols
+            "RTP/SAVP" => Protocol::RtpSavp,
+            "RTP/AVP" => Protocol::RtpAvp,
+            // Basic protocols
+            "UDP" => Protocol::Udp,
+            "TCP" => Protocol::Tcp,
+            // Fallback for unknown protocols
+            other => Protocol::Other(SmolStr::new(other)),
+        },
+    )(input)
 }
 
 /// Parse network type: IN (Internet)
-- 
2.43.0


From c0670b93a078a935935f06d427b8cf2a519490c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 049/132] fix: rtpmap parameters are validated and a refused
 change alters nothing

---
 crates/sip-sdp/src/lib.rs | 48 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 641c037..ae150a2 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -595,6 +595,9 @@ impl MediaDescription {
         validate_payload_type(payload_type)?;
         validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
         validate_clock_rate(clock_rate)?;
+        if let Some(params) = encoding_params {
+            validate_field(params, "encoding_params", MAX_ENCODING_NAME_LENGTH)?;
+        }
 
         // Replace-semantics: drop any previous rtpmap for this PT
         // before counting against the limits. This way we don't reject
@@ -744,26 +747,38 @@ impl MediaDescription {
         validate_payload_type(payload_type)?;
         validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
         validate_clock_rate(clock_rate)?;
+        if let Some(params) = encoding_params {
+            validate_field(params, "encoding_params", MAX_ENCODING_NAME_LENGTH)?;
+        }
 
-        // Drop any prior entries first so duplicate-pt mutations are
-        // idempotent and don't trip the per-section attribute cap.
-        remove_rtpmap_attr(&mut self.attributes, payload_type);
-        self.rtpmaps.remove(&payload_type);
-
-        if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
+        // Count without the entries being replaced, so duplicate-pt
+        // mutations are idempotent and don't trip the per-section caps,
+        // but drop those only once the new entry is known to fit: a
+        // refused change leaves the description as it was.
+        let replaced = self
+            .attributes
+            .iter()
+            .filter(|a| is_rtpmap_attr(a, payload_type))
+            .count();
+        let attributes = self.attributes.len() - replaced;
+        if attributes >= MAX_ATTRIBUTES_PER_DESCRIPTION {
             return Err(SdpError::TooManyItems {
                 collection: "attributes",
                 max: MAX_ATTRIBUTES_PER_DESCRIPTION,
-                actual: self.attributes.len() + 1,
+                actual: attributes + 1,
             });
         }
-        if self.rtpmaps.len() >= MAX_RTPMAPS {
+        let cached = self.rtpmaps.contains_key(&payload_type) as usize;
+        let rtpmaps = self.rtpmaps.len() - cached;
+        if rtpmaps >= MAX_RTPMAPS {
             return Err(SdpError::TooManyItems {
                 collection: "rtpmaps",
                 max: MAX_RTPMAPS,
-                actual: self.rtpmaps.len() + 1,
+                actual: rtpmaps + 1,
             });
         }
+        remove_rtpmap_attr(&mut self.attributes, payload_type);
+        self.rtpmaps.remove(&payload_type);
 
         let value = match encoding_params {
             Some(params) => format!(
@@ -802,18 +817,23 @@ impl MediaDescription {
 /// Returns the count removed so callers can tell if anything was there.
 fn remove_rtpmap_attr(attrs: &mut Vec<Attribute>, payload_type: u8) -> usize {
     let before = attrs.len();
-    attrs.retain(|a| match a {
+    attrs.retain(|a| !is_rtpmap_attr(a, payload_type));
+    before - attrs.len()
+}
+
+/// Whether an attribute is the `a=rtpmap` line of a payload type.
+fn is_rtpmap_attr(attr: &Attribute, payload_type: u8) -> bool {
+    match attr {
         Attribute::Value { name, value } if name.as_str() == "rtpmap" => {
             value
                 .as_str()
                 .split_whitespace()
                 .next()
                 .and_then(|t| t.parse::<u8>().ok())
-                != Some(payload_type)
+                == Some(payload_type)
         }
-        _ => true,
-    });
-    before - attrs.len()
+        _ => false,
+    }
 }
 
 impl Origin {
-- 
2.43.0


From 28c68c9606233db7df81ad13196af820b43d54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 050/132] fix: a media stream offered with port zero is
 answered with port zero

---
 crates/sip-sdp/src/negotiate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 9f225cd..845bee2 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -192,7 +192,8 @@ pub fn negotiate_answer(
     // already-accepted type are rejected.
     let mut accepted_types: Vec<MediaType> = Vec::new();
     for offer_media in &offer.media {
-        if accepted_types.contains(&offer_media.media_type) {
+        // A stream offered with port zero is not wanted and stays rejected.
+        if offer_media.port == 0 || accepted_types.contains(&offer_media.media_type) {
             let rejected = create_rejected_media(offer_media)?;
             answer_builder = answer_builder
                 .media(rejected)
-- 
2.43.0


From b63d1d5dd7313117011ba09da4c9584383405a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 051/132] fix: SDP answers honour inactive streams and
 session-level directions

---
 crates/sip-sdp/src/negotiate.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 845bee2..12e41f7 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -200,7 +200,7 @@ pub fn negotiate_answer(
                 .map_err(|e| NegotiationError::InvalidSdp(e.to_string()))?;
             continue;
         }
-        match negotiate_media(offer_media, local_capabilities) {
+        match negotiate_media(offer, offer_media, local_capabilities) {
             Ok(answer_media) => {
                 accepted_types.push(offer_media.media_type.clone());
                 answer_builder = answer_builder
@@ -224,6 +224,7 @@ pub fn negotiate_answer(
 
 /// Negotiate a single media stream
 fn negotiate_media(
+    offer: &SessionDescription,
     offer_media: &MediaDescription,
     local_capabilities: &SessionDescription,
 ) -> Result<MediaDescription, NegotiationError> {
@@ -250,11 +251,16 @@ fn negotiate_media(
     }
 
     // Get directions
-    let offer_dir = extract_direction(&offer_media.attributes).unwrap_or(Direction::SendRecv);
-    let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
+    // (a session-level direction is the default for its media)
+    let offer_dir = extract_direction(&offer_media.attributes)
+        .or_else(|| extract_direction(&offer.attributes))
+        .unwrap_or(Direction::SendRecv);
+    let local_dir = extract_direction(&local_media.attributes)
+        .or_else(|| extract_direction(&local_capabilities.attributes))
+        .unwrap_or(Direction::SendRecv);
 
     // Negotiate direction from answerer's perspective
-    let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
+    let answer_dir = answer_direction(&offer_dir, &local_dir);
 
     // Build answer media
     let mut answer_media = base_answer_media(offer_media, local_media.port);
@@ -420,6 +426,23 @@ fn extract_direction(attributes: &[Attribute]) -> Option<Direction> {
     attributes.iter().find_map(Direction::from_attribute)
 }
 
+/// Direction of the answered stream (RFC 3264 Section 6.1): it sends only if
+/// the offerer receives and we want to send, and receives only if the offerer
+/// sends and we want to receive; otherwise the stream is inactive.
+fn answer_direction(offer: &Direction, local: &Direction) -> Direction {
+    let sends = |d: &Direction| matches!(d, Direction::SendRecv | Direction::SendOnly);
+    let receives = |d: &Direction| matches!(d, Direction::SendRecv | Direction::RecvOnly);
+    match (
+        receives(offer) && sends(local),
+        sends(offer) && receives(local),
+    ) {
+        (true, true) => Direction::SendRecv,
+        (true, false) => Direction::SendOnly,
+        (false, true) => Direction::RecvOnly,
+        (false, false) => Direction::Inactive,
+    }
+}
+
 fn base_answer_media(offer_media: &MediaDescription, port: u16) -> MediaDescription {
     MediaDescription {
         media_type: offer_media.media_type.clone(),
-- 
2.43.0


From 4177626868bba8763c451575387c78447d1071a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 052/132] fix: answered payload types keep the codec and
 parameters they stand for

---
 crates/sip-sdp/src/negotiate.rs | 46 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 12e41f7..16f8cae 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -297,7 +297,10 @@ fn negotiate_media(
             Some(pt) => pt,
             None => continue,
         };
-        if let Some(local_fmtp) = local_media.fmtp_for(pt) {
+        let local_fmtp = negotiated
+            .local_payload_type
+            .and_then(|local_pt| local_media.fmtp_for(local_pt));
+        if let Some(local_fmtp) = local_fmtp {
             answer_media.set_fmtp(pt, &local_fmtp.params);
         } else if let Some(offer_fmtp) = offer_media.fmtp_for(pt) {
             answer_media.set_fmtp(pt, &offer_fmtp.params);
@@ -339,6 +342,8 @@ fn negotiate_media(
 #[derive(Debug, Clone)]
 struct NegotiatedFormat {
     offered_format: SmolStr,
+    /// Payload type under which the local description lists the same codec.
+    local_payload_type: Option<u8>,
     rtpmap: Option<RtpMap>,
 }
 
@@ -356,10 +361,16 @@ fn find_common_formats(
             };
 
             if offer_pt < 96 {
-                if local_supports_static_pt(local_media, offer_pt) {
+                let local_rtpmap = local_media.rtpmaps.get(&offer_pt);
+                let remapped = match (offer_media.rtpmaps.get(&offer_pt), local_rtpmap) {
+                    (Some(offered), Some(local)) => !same_codec(offered, local),
+                    _ => false,
+                };
+                if !remapped && local_supports_static_pt(local_media, offer_pt) {
                     common.push(NegotiatedFormat {
                         offered_format: offer_fmt.clone(),
-                        rtpmap: local_media.rtpmaps.get(&offer_pt).cloned(),
+                        local_payload_type: Some(offer_pt),
+                        rtpmap: local_rtpmap.cloned(),
                     });
                 }
                 continue;
@@ -373,6 +384,7 @@ fn find_common_formats(
             if let Some(local_rtpmap) = find_matching_dynamic_rtpmap(local_media, offer_rtpmap) {
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
+                    local_payload_type: Some(local_rtpmap.payload_type),
                     rtpmap: Some(RtpMap {
                         payload_type: offer_pt,
                         encoding_name: local_rtpmap.encoding_name.clone(),
@@ -387,6 +399,7 @@ fn find_common_formats(
             if local_media.formats.iter().any(|f| f == offer_fmt) {
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
+                    local_payload_type: None,
                     rtpmap: None,
                 });
             }
@@ -491,24 +504,23 @@ fn find_matching_dynamic_rtpmap(
     local_media: &MediaDescription,
     offer_rtpmap: &RtpMap,
 ) -> Option<RtpMap> {
+    // In the local order of preference, so the choice does not vary.
     local_media
-        .rtpmaps
-        .values()
-        .find(|local_rtpmap| {
-            local_media
-                .formats
-                .iter()
-                .filter_map(parse_payload_type)
-                .any(|pt| pt == local_rtpmap.payload_type)
-                && offer_rtpmap
-                    .encoding_name
-                    .eq_ignore_ascii_case(&local_rtpmap.encoding_name)
-                && offer_rtpmap.clock_rate == local_rtpmap.clock_rate
-                && offer_rtpmap.encoding_params == local_rtpmap.encoding_params
-        })
+        .formats
+        .iter()
+        .filter_map(parse_payload_type)
+        .filter_map(|pt| local_media.rtpmaps.get(&pt))
+        .find(|local_rtpmap| same_codec(offer_rtpmap, local_rtpmap))
         .cloned()
 }
 
+/// Whether two rtpmaps name the same codec, whatever their payload types.
+fn same_codec(a: &RtpMap, b: &RtpMap) -> bool {
+    a.encoding_name.eq_ignore_ascii_case(&b.encoding_name)
+        && a.clock_rate == b.clock_rate
+        && a.encoding_params == b.encoding_params
+}
+
 /// Generate session ID
 fn generate_session_id() -> String {
     std::time::SystemTime::now()
-- 
2.43.0


From 11ed4f64a090278ffe9d1b09480074b6dc141493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 053/132] fix: default video port does not overflow

---
 crates/sip-sdp/src/profiles.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 183da2c..8a3dc0f 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -129,7 +129,7 @@ impl MediaProfileBuilder {
         builder = builder.media(audio).expect("valid media");
 
         if self.enable_video {
-            let vport = video_port.unwrap_or(audio_port + 2);
+            let vport = video_port.unwrap_or_else(|| default_video_port(audio_port));
             let mut video = MediaDescription::video(vport)
                 .with_direction(self.direction)
                 .expect("valid direction");
@@ -196,7 +196,7 @@ pub fn create_from_profile(
             local_uri,
             local_addr,
             audio_port,
-            video_port.unwrap_or(audio_port + 2),
+            video_port.unwrap_or_else(|| default_video_port(audio_port)),
         ),
         SdpProfile::Custom => create_audio_only(local_uri, local_addr, audio_port),
     }
@@ -299,6 +299,12 @@ fn create_audio_video(
         .build()
 }
 
+/// The port pair after the audio one, or the one before it at the top of the
+/// port range.
+fn default_video_port(audio_port: u16) -> u16 {
+    audio_port.checked_add(2).unwrap_or_else(|| audio_port - 2)
+}
+
 /// Generates a session ID using current timestamp
 fn generate_session_id() -> String {
     std::time::SystemTime::now()
-- 
2.43.0


From ec901e7016321a885dd978fdbe32300b46e0be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 054/132] fix: profile answers accept only codecs both sides
 name alike

---
 crates/sip-sdp/src/profiles.rs | 59 ++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 8a3dc0f..f99a19e 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -8,7 +8,6 @@
 //! video conferences, etc. These can be used as starting points and customized as needed.
 
 use crate::*;
-use std::collections::HashSet;
 
 /// SDP profile type
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -332,9 +331,6 @@ pub fn negotiate_answer(
         rtcp_mux: profile.rtcp_mux,
     };
 
-    let desired_audio: HashSet<u8> = profile.audio_codecs.iter().map(|c| c.0).collect();
-    let desired_video: HashSet<u8> = profile.video_codecs.iter().map(|c| c.0).collect();
-
     for m in &offer.media {
         match &m.media_type {
             MediaType::Audio => {
@@ -343,16 +339,17 @@ pub fn negotiate_answer(
                         Some(pt) => pt,
                         None => continue,
                     };
-                    if desired_audio.contains(&pt) {
-                        if let Some(rtp) = m.rtpmaps.get(&pt) {
-                            builder = builder.add_audio_codec(
-                                pt,
-                                rtp.encoding_name.to_string(),
-                                rtp.clock_rate,
-                            );
+                    if let Some((_, name, rate)) = common_codec(&profile.audio_codecs, m, pt) {
+                        if !builder.audio_codecs.iter().any(|c| c.0 == pt) {
+                            builder = builder.add_audio_codec(pt, name.as_str(), *rate);
                         }
                     }
-                    if pt == 101 && profile.include_telephone_event {
+                    let is_telephone_event = m.rtpmaps.get(&pt).is_none_or(|offered| {
+                        offered
+                            .encoding_name
+                            .eq_ignore_ascii_case("telephone-event")
+                    });
+                    if pt == 101 && is_telephone_event && profile.include_telephone_event {
                         builder = builder.telephone_event(true);
                     }
                 }
@@ -360,19 +357,14 @@ pub fn negotiate_answer(
             MediaType::Video
                 // Only enable video if the profile supports it
                 if (profile.enable_video || !profile.video_codecs.is_empty()) => {
-                    builder.enable_video = true;
                     for fmt in &m.formats {
                         let pt = match parse_payload_type(fmt) {
                             Some(pt) => pt,
                             None => continue,
                         };
-                        if desired_video.contains(&pt) {
-                            if let Some(rtp) = m.rtpmaps.get(&pt) {
-                                builder = builder.add_video_codec(
-                                    pt,
-                                    rtp.encoding_name.to_string(),
-                                    rtp.clock_rate,
-                                );
+                        if let Some((_, name, rate)) = common_codec(&profile.video_codecs, m, pt) {
+                            if !builder.video_codecs.iter().any(|c| c.0 == pt) {
+                                builder = builder.add_video_codec(pt, name.as_str(), *rate);
                             }
                         }
                     }
@@ -381,7 +373,32 @@ pub fn negotiate_answer(
         }
     }
 
-    builder.build(username, addr, audio_port, video_port)
+    // Without a common audio codec there is no audio to accept.
+    let video_port = video_port.unwrap_or_else(|| default_video_port(audio_port));
+    let audio_port = if builder.audio_codecs.is_empty() {
+        0
+    } else {
+        audio_port
+    };
+    builder.build(username, addr, audio_port, Some(video_port))
+}
+
+/// The profile's codec that an offered payload type stands for, if any.
+fn common_codec<'a>(
+    codecs: &'a [(u8, String, u32)],
+    media: &MediaDescription,
+    pt: u8,
+) -> Option<&'a (u8, String, u32)> {
+    codecs.iter().find(|(codec_pt, name, rate)| {
+        *codec_pt == pt
+            && match media.rtpmaps.get(&pt) {
+                Some(offered) => {
+                    offered.encoding_name.eq_ignore_ascii_case(name) && offered.clock_rate == *rate
+                }
+                // Only statically assigned payload types go without an rtpmap.
+                None => pt < 96,
+            }
+    })
 }
 
 fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
-- 
2.43.0


From 8549211052b3ed5c26e9bc7286419ff70ab83a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 055/132] fix: SDP answers list the offered formats in the
 offered order

---
 crates/sip-core/src/sdp_offer_answer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 2327442..691bae9 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -539,12 +539,16 @@ impl OfferAnswerEngine {
         // Find common codecs
         let mut common_codecs: Vec<(String, &RtpMap)> = Vec::new();
 
-        for (payload, rtpmap) in &offer_rtpmaps {
-            for codec in supported_codecs {
-                if codec.matches(rtpmap) {
-                    common_codecs.push((payload.clone(), rtpmap));
-                    break;
-                }
+        // In the order of the offered formats; an rtpmap whose payload type is
+        // not among them offers nothing.
+        for payload in offer_media.fmt() {
+            let Some(rtpmap) = offer_rtpmaps.get(payload) else {
+                continue;
+            };
+            if supported_codecs.iter().any(|codec| codec.matches(rtpmap))
+                && !common_codecs.iter().any(|(pt, _)| pt == payload)
+            {
+                common_codecs.push((payload.clone(), rtpmap));
             }
         }
 
-- 
2.43.0


From 7aa3012992c09b9c122f825cbfcb63e27d7b5c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 056/132] fix: streams offered with port zero, or beyond the
 last port, are rejected

---
 crates/sip-core/src/sdp_offer_answer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 691bae9..1523cf5 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -489,18 +489,21 @@ impl OfferAnswerEngine {
         });
 
         // Process each media stream in order - use getter
-        let mut current_port = options.base_port();
+        let mut next_port = Some(options.base_port());
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
             // Check if this media should be rejected - use getter
-            let should_reject = options.reject_media().contains(&idx);
+            let should_reject = options.reject_media().contains(&idx) || offer_media.port() == 0;
 
             let answer_media = if should_reject {
                 self.create_rejected_media(offer_media)
             } else {
-                match self.negotiate_media(offer_media, &options, current_port, idx) {
+                let port = next_port.ok_or_else(|| {
+                    NegotiationError::ValidationError("No media ports left".to_string())
+                });
+                match port.and_then(|port| self.negotiate_media(offer_media, &options, port, idx)) {
                     Ok(media) => {
-                        current_port += 2; // RTP + RTCP
+                        next_port = media.port().checked_add(2); // RTP + RTCP
                         media
                     }
                     Err(_) => {
-- 
2.43.0


From dd9437c5ee03ec543d46932defb9a95bc05ba92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 057/132] fix: a session-level direction applies to media
 without their own

---
 crates/sip-core/src/sdp_offer_answer.rs | 29 +++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 1523cf5..a93c4e5 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -501,7 +501,7 @@ impl OfferAnswerEngine {
                 let port = next_port.ok_or_else(|| {
                     NegotiationError::ValidationError("No media ports left".to_string())
                 });
-                match port.and_then(|port| self.negotiate_media(offer_media, &options, port, idx)) {
+                match port.and_then(|port| self.negotiate_media(offer, offer_media, &options, port, idx)) {
                     Ok(media) => {
                         next_port = media.port().checked_add(2); // RTP + RTCP
                         media
@@ -522,6 +522,7 @@ impl OfferAnswerEngine {
     /// Negotiates a single media stream.
     fn negotiate_media(
         &self,
+        offer: &SdpSession,
         offer_media: &MediaDescription,
         options: &AnswerOptions,
         port: u16,
@@ -582,7 +583,7 @@ impl OfferAnswerEngine {
         }
 
         // Negotiate direction - use getter
-        let offer_direction = self.get_media_direction(offer_media);
+        let offer_direction = self.get_effective_direction(offer, offer_media);
         let answer_direction = if let Some(override_dir) = options.direction_override() {
             override_dir
         } else {
@@ -718,6 +719,26 @@ impl OfferAnswerEngine {
         None
     }
 
+    /// Gets the direction that applies to a media description: its own, or
+    /// the session-level one, or sendrecv.
+    fn get_effective_direction(
+        &self,
+        session: &SdpSession,
+        media: &MediaDescription,
+    ) -> Direction {
+        let has_own = media
+            .attributes()
+            .iter()
+            .any(|attr| attr.value.is_none() && Direction::parse(&attr.name).is_some());
+        if has_own {
+            self.get_media_direction(media)
+        } else {
+            session
+                .find_direction(None)
+                .unwrap_or(Direction::SendRecv)
+        }
+    }
+
     /// Gets direction attribute from media description.
     fn get_media_direction(&self, media: &MediaDescription) -> Direction {
         for attr in media.attributes() {
@@ -749,7 +770,7 @@ impl OfferAnswerEngine {
         }
 
         for media in &mut hold_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.get_effective_direction(session, media);
 
             let hold_dir = match current_dir {
                 Direction::SendRecv => Direction::SendOnly,
@@ -780,7 +801,7 @@ impl OfferAnswerEngine {
         }
 
         for media in &mut resume_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.get_effective_direction(session, media);
 
             let resume_dir = match current_dir {
                 Direction::SendOnly => Direction::SendRecv,
-- 
2.43.0


From 8afe165fa69f4a211d3dd43bec86777a017bb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 058/132] fix: SDP answers name the local address type; version
 numbers do not overflow

---
 crates/sip-core/src/sdp_offer_answer.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index a93c4e5..02e1483 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -439,6 +439,17 @@ fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
     Ok(())
 }
 
+/// The session version after a numeric one.
+fn next_version(version: &str) -> Option<String> {
+    let next = version.parse::<u128>().ok()?.checked_add(1)?;
+    Some(next.to_string())
+}
+
+/// The address type of a local address.
+fn address_type(address: &str) -> String {
+    if address.contains(':') { "IP6" } else { "IP4" }.to_string()
+}
+
 /// RFC 3264 Offer/Answer negotiation engine.
 pub struct OfferAnswerEngine {}
 
@@ -472,7 +483,7 @@ impl OfferAnswerEngine {
             sess_id: options.session_id().to_string(),
             sess_version: "0".to_string(),
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: address_type(options.local_address()),
             unicast_address: options.local_address().to_string(),
         };
 
@@ -484,7 +495,7 @@ impl OfferAnswerEngine {
         // Session-level connection - use getter
         answer.connection = Some(Connection {
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: address_type(options.local_address()),
             connection_address: options.local_address().to_string(),
         });
 
@@ -765,8 +776,8 @@ impl OfferAnswerEngine {
     pub fn create_hold_offer(&self, session: &SdpSession) -> SdpSession {
         let mut hold_session = session.clone();
 
-        if let Ok(version) = hold_session.origin().sess_version().parse::<u64>() {
-            hold_session.origin.sess_version = (version + 1).to_string();
+        if let Some(version) = next_version(hold_session.origin().sess_version()) {
+            hold_session.origin.sess_version = version;
         }
 
         for media in &mut hold_session.media {
@@ -796,8 +807,8 @@ impl OfferAnswerEngine {
     pub fn create_resume_offer(&self, session: &SdpSession) -> SdpSession {
         let mut resume_session = session.clone();
 
-        if let Ok(version) = resume_session.origin.sess_version.parse::<u64>() {
-            resume_session.origin.sess_version = (version + 1).to_string();
+        if let Some(version) = next_version(resume_session.origin().sess_version()) {
+            resume_session.origin.sess_version = version;
         }
 
         for media in &mut resume_session.media {
-- 
2.43.0


From dae9b6f7885b427d5e9b0bf0c5fe9b2ae8ac3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 059/132] fix: SDP answers do not repeat the offerer's RTCP
 port as their own

---
 crates/sip-core/src/sdp_offer_answer.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 02e1483..668d488 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -512,7 +512,9 @@ impl OfferAnswerEngine {
                 let port = next_port.ok_or_else(|| {
                     NegotiationError::ValidationError("No media ports left".to_string())
                 });
-                match port.and_then(|port| self.negotiate_media(offer, offer_media, &options, port, idx)) {
+                match port
+                    .and_then(|port| self.negotiate_media(offer, offer_media, &options, port, idx))
+                {
                     Ok(media) => {
                         next_port = media.port().checked_add(2); // RTP + RTCP
                         media
@@ -621,7 +623,7 @@ impl OfferAnswerEngine {
             encryption_key: None,
             attributes,
             mid: offer_media.mid().map(String::from),
-            rtcp: offer_media.rtcp().cloned(),
+            rtcp: None, // RTCP uses the port after the answered RTP port
             capability_set: offer_media.capability_set().cloned(),
         })
     }
@@ -732,11 +734,7 @@ impl OfferAnswerEngine {
 
     /// Gets the direction that applies to a media description: its own, or
     /// the session-level one, or sendrecv.
-    fn get_effective_direction(
-        &self,
-        session: &SdpSession,
-        media: &MediaDescription,
-    ) -> Direction {
+    fn get_effective_direction(&self, session: &SdpSession, media: &MediaDescription) -> Direction {
         let has_own = media
             .attributes()
             .iter()
@@ -744,9 +742,7 @@ impl OfferAnswerEngine {
         if has_own {
             self.get_media_direction(media)
         } else {
-            session
-                .find_direction(None)
-                .unwrap_or(Direction::SendRecv)
+            session.find_direction(None).unwrap_or(Direction::SendRecv)
         }
     }
 
-- 
2.43.0


From eeaa768914a2713d965fb39d53177a8151e171cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 060/132] fix: SDP repeat times stay with the time description
 they follow

---
 crates/sip-core/src/sdp.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index fcfbd97..e5113e1 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -528,6 +528,8 @@ pub struct Timing {
 /// Repeat time line (r=) components.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct RepeatTime {
+    /// Index of the timing line this repeat belongs to.
+    timing_index: usize,
     repeat_interval: String,
     active_duration: String,
     offsets: Vec<String>,
@@ -1471,7 +1473,9 @@ impl SdpSession {
                     // Check for following r= lines
                     while idx + 1 < lines.len() && lines[idx + 1].starts_with("r=") {
                         idx += 1;
-                        self.repeat_times.push(parse_repeat_time(lines[idx])?);
+                        let mut repeat = parse_repeat_time(lines[idx])?;
+                        repeat.timing_index = self.timing.len() - 1;
+                        self.repeat_times.push(repeat);
                         // Security: Check repeat times collection size
                         validate_collection_size(
                             &self.repeat_times,
@@ -2016,11 +2020,11 @@ impl fmt::Display for SdpSession {
         for bw in &self.bandwidth {
             writeln!(f, "{}", bw)?;
         }
-        for timing in &self.timing {
+        for (i, timing) in self.timing.iter().enumerate() {
             writeln!(f, "{}", timing)?;
-        }
-        for repeat in &self.repeat_times {
-            writeln!(f, "{}", repeat)?;
+            for repeat in self.repeat_times.iter().filter(|r| r.timing_index == i) {
+                writeln!(f, "{}", repeat)?;
+            }
         }
         if !self.time_zones.is_empty() {
             write!(f, "z=")?;
@@ -2556,6 +2560,7 @@ fn parse_repeat_time(line: &str) -> Result<RepeatTime, SdpError> {
     }
 
     Ok(RepeatTime {
+        timing_index: 0,
         repeat_interval: parts[0].to_string(),
         active_duration: parts[1].to_string(),
         offsets,
-- 
2.43.0


From 70759a5ba8beaac1d07a142d2c5638a949746f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 061/132] fix: serialised SDP lines end with CRLF

---
 crates/sip-core/src/sdp.rs | 58 +++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index e5113e1..2d388af 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -1998,32 +1998,32 @@ fn direction_meets_requirement(
 impl fmt::Display for SdpSession {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // Session-level fields (in required order)
-        writeln!(f, "v={}", self.version)?;
-        writeln!(f, "{}", self.origin)?;
-        writeln!(f, "s={}", self.session_name)?;
+        write!(f, "v={}\r\n", self.version)?;
+        write!(f, "{}\r\n", self.origin)?;
+        write!(f, "s={}\r\n", self.session_name)?;
 
         if let Some(ref info) = self.session_info {
-            writeln!(f, "i={}", info)?;
+            write!(f, "i={}\r\n", info)?;
         }
         if let Some(ref uri) = self.uri {
-            writeln!(f, "u={}", uri)?;
+            write!(f, "u={}\r\n", uri)?;
         }
         for email in &self.emails {
-            writeln!(f, "e={}", email)?;
+            write!(f, "e={}\r\n", email)?;
         }
         for phone in &self.phones {
-            writeln!(f, "p={}", phone)?;
+            write!(f, "p={}\r\n", phone)?;
         }
         if let Some(ref conn) = self.connection {
-            writeln!(f, "{}", conn)?;
+            write!(f, "{}\r\n", conn)?;
         }
         for bw in &self.bandwidth {
-            writeln!(f, "{}", bw)?;
+            write!(f, "{}\r\n", bw)?;
         }
         for (i, timing) in self.timing.iter().enumerate() {
-            writeln!(f, "{}", timing)?;
+            write!(f, "{}\r\n", timing)?;
             for repeat in self.repeat_times.iter().filter(|r| r.timing_index == i) {
-                writeln!(f, "{}", repeat)?;
+                write!(f, "{}\r\n", repeat)?;
             }
         }
         if !self.time_zones.is_empty() {
@@ -2034,27 +2034,27 @@ impl fmt::Display for SdpSession {
                 }
                 write!(f, "{} {}", tz.adjustment_time, tz.offset)?;
             }
-            writeln!(f)?;
+            write!(f, "\r\n")?;
         }
         if let Some(ref key) = self.encryption_key {
-            writeln!(f, "{}", key)?;
+            write!(f, "{}\r\n", key)?;
         }
         for attr in &self.attributes {
-            writeln!(f, "{}", attr)?;
+            write!(f, "{}\r\n", attr)?;
         }
         // Write capability set (RFC 3407)
         if let Some(ref cap_set) = self.capability_set {
-            writeln!(f, "a=sqn:{}", cap_set.sequence_number)?;
+            write!(f, "a=sqn:{}\r\n", cap_set.sequence_number)?;
             for cdsc in &cap_set.descriptions {
-                writeln!(f, "a=cdsc:{}", cdsc)?;
+                write!(f, "a=cdsc:{}\r\n", cdsc)?;
             }
             for cpar in &cap_set.parameters {
-                writeln!(f, "a={}:{}", cpar.param_type.as_str(), cpar)?;
+                write!(f, "a={}:{}\r\n", cpar.param_type.as_str(), cpar)?;
             }
         }
         // Write group attributes (RFC 3388)
         for group in &self.groups {
-            writeln!(f, "a=group:{}", group)?;
+            write!(f, "a=group:{}\r\n", group)?;
         }
 
         // Media descriptions
@@ -2222,40 +2222,40 @@ impl fmt::Display for MediaDescription {
         for fmt in &self.fmt {
             write!(f, " {}", fmt)?;
         }
-        writeln!(f)?;
+        write!(f, "\r\n")?;
 
         if let Some(ref title) = self.title {
-            writeln!(f, "i={}", title)?;
+            write!(f, "i={}\r\n", title)?;
         }
         if let Some(ref conn) = self.connection {
-            writeln!(f, "{}", conn)?;
+            write!(f, "{}\r\n", conn)?;
         }
         for bw in &self.bandwidth {
-            writeln!(f, "{}", bw)?;
+            write!(f, "{}\r\n", bw)?;
         }
         if let Some(ref key) = self.encryption_key {
-            writeln!(f, "{}", key)?;
+            write!(f, "{}\r\n", key)?;
         }
         // Write mid attribute (RFC 3388)
         if let Some(ref mid) = self.mid {
-            writeln!(f, "a=mid:{}", mid)?;
+            write!(f, "a=mid:{}\r\n", mid)?;
         }
         // Write rtcp attribute (RFC 3605)
         if let Some(ref rtcp) = self.rtcp {
-            writeln!(f, "a=rtcp:{}", rtcp)?;
+            write!(f, "a=rtcp:{}\r\n", rtcp)?;
         }
         // Write capability set (RFC 3407)
         if let Some(ref cap_set) = self.capability_set {
-            writeln!(f, "a=sqn:{}", cap_set.sequence_number)?;
+            write!(f, "a=sqn:{}\r\n", cap_set.sequence_number)?;
             for cdsc in &cap_set.descriptions {
-                writeln!(f, "a=cdsc:{}", cdsc)?;
+                write!(f, "a=cdsc:{}\r\n", cdsc)?;
             }
             for cpar in &cap_set.parameters {
-                writeln!(f, "a={}:{}", cpar.param_type.as_str(), cpar)?;
+                write!(f, "a={}:{}\r\n", cpar.param_type.as_str(), cpar)?;
             }
         }
         for attr in &self.attributes {
-            writeln!(f, "{}", attr)?;
+            write!(f, "{}\r\n", attr)?;
         }
 
         Ok(())
-- 
2.43.0


From 66100290d50ecdb4969819504fcd774f18fee21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 062/132] fix: SDP lines with a carriage return inside are
 refused

---
 crates/sip-sdp/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 9206104..eef4b3f 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -160,6 +160,12 @@ fn parse_sdp_lines(input: &str) -> Result<Vec<SdpLine>, ParseError> {
         if line.trim().is_empty() {
             continue;
         }
+        // A bare CR is neither a line ending nor part of any field.
+        if line.trim_end().contains('\r') {
+            return Err(ParseError::ParseFailed(
+                "carriage return within a line".to_string(),
+            ));
+        }
         let (remaining, parsed) =
             parse_line(line).map_err(|e| ParseError::ParseFailed(e.to_string()))?;
         if !remaining.trim().is_empty() {
-- 
2.43.0


From 7278fa6ac999736fb669e01db05c10da09581cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 063/132] fix: semicolons inside the info URI or quoted values
 do not end an Identity parameter

---
 crates/sip-identity/src/header.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/sip-identity/src/header.rs b/crates/sip-identity/src/header.rs
index 3f880a1..0aa7acf 100644
--- a/crates/sip-identity/src/header.rs
+++ b/crates/sip-identity/src/header.rs
@@ -51,7 +51,7 @@ impl IdentityHeader {
             });
         }
 
-        let mut segments = value.split(';');
+        let mut segments = split_params(value);
         let token = segments.next().unwrap_or("").trim();
         if token.is_empty() {
             return Err(IdentityError::EmptyToken);
@@ -103,6 +103,34 @@ fn strip_angle_brackets(s: &str) -> Result<String, IdentityError> {
         .ok_or_else(|| IdentityError::InvalidParam(format!("info must be <URI>, got {s:?}")))
 }
 
+/// Split `value` at the semicolons that separate parameters: one inside
+/// `<...>` belongs to the URI and one inside `"..."` to the quoted value.
+fn split_params(value: &str) -> impl Iterator<Item = &str> {
+    let mut in_uri = false;
+    let mut quoted = false;
+    let mut escaped = false;
+    value.split(move |c| {
+        if quoted {
+            if escaped {
+                escaped = false;
+            } else if c == '\\' {
+                escaped = true;
+            } else if c == '"' {
+                quoted = false;
+            }
+            return false;
+        }
+        match c {
+            '"' if !in_uri => quoted = true,
+            '<' => in_uri = true,
+            '>' => in_uri = false,
+            ';' => return !in_uri,
+            _ => {}
+        }
+        false
+    })
+}
+
 /// Strip surrounding double quotes from a parameter value if present.
 fn unquote(s: &str) -> &str {
     s.strip_prefix('"')
-- 
2.43.0


From d7c85bb495d794c2c049991545aa47170a5711fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 064/132] fix: a NAPTR replacement that names an SRV record set
 is looked up as it is

---
 crates/sip-dns/src/lib.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..4721eb2 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -487,17 +487,22 @@ impl SipResolver {
                     .as_ref()
                     .map(|replacement| replacement.as_str())
                     .unwrap_or(host);
-                if let Ok(targets) = self
-                    .lookup_srv(lookup_host, record.transport, uri.is_sips())
-                    .await
-                {
+                // The replacement names the SRV record set itself
+                // (RFC 3263 §4.1), e.g. `_sip._udp.example.com`.
+                let srv_name = if lookup_host.starts_with('_') {
+                    lookup_host.to_string()
+                } else {
+                    Self::srv_name(lookup_host, record.transport, uri.is_sips())
+                };
+                if let Ok(targets) = self.lookup_srv(srv_name, record.transport).await {
                     all_targets.extend(targets);
                 }
             }
         } else {
             let transports = self.default_transport_order(uri);
             for transport in transports {
-                if let Ok(targets) = self.lookup_srv(host, transport, uri.is_sips()).await {
+                let srv_name = Self::srv_name(host, transport, uri.is_sips());
+                if let Ok(targets) = self.lookup_srv(srv_name, transport).await {
                     all_targets.extend(targets);
                 }
             }
@@ -642,17 +647,15 @@ impl SipResolver {
         Ok(records)
     }
 
-    /// Performs SRV lookup per RFC 3263 §4.2.
-    async fn lookup_srv(
-        &self,
-        host: &str,
-        transport: Transport,
-        sips: bool,
-    ) -> Result<Vec<DnsTarget>> {
+    /// The SRV owner name for `host` and `transport` (RFC 3263 §4.2).
+    fn srv_name(host: &str, transport: Transport, sips: bool) -> String {
         let service = transport.as_service_str(sips);
         let proto = transport.as_proto_str();
-        let srv_name = format!("{}._{}.{}", service, proto, host);
+        format!("{}._{}.{}", service, proto, host)
+    }
 
+    /// Performs SRV lookup per RFC 3263 §4.2.
+    async fn lookup_srv(&self, srv_name: String, transport: Transport) -> Result<Vec<DnsTarget>> {
         let lookup = tokio::time::timeout(
             self.query_timeout,
             self.resolver.srv_lookup(srv_name.clone()),
-- 
2.43.0


From 9a0edc0806ebfb713320e7960fd4e84d818ac0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 065/132] fix: the default port for a URI asking for TLS is
 5061

---
 crates/sip-dns/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 4721eb2..58b3e44 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -412,6 +412,15 @@ impl SipResolver {
         }
     }
 
+    /// Default port for the URI's transport: 5061 over TLS, 5060 otherwise
+    /// (RFC 3261 §19.1.2).
+    fn default_port(uri: &SipUri) -> u16 {
+        match Self::default_transport(uri) {
+            Transport::Tls | Transport::TlsSctp => 5061,
+            _ => 5060,
+        }
+    }
+
     /// Returns the transport parameter from the URI, if present.
     fn transport_param(uri: &SipUri) -> Option<Transport> {
         let transport_param = uri.params().get(&SmolStr::new("transport"))?;
@@ -439,9 +448,7 @@ impl SipResolver {
 
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
-            let port = uri
-                .port()
-                .unwrap_or(if uri.is_sips() { 5061 } else { 5060 });
+            let port = uri.port().unwrap_or(Self::default_port(uri));
             return enforce_target_limit(vec![DnsTarget::unchecked_new(
                 host,
                 port,
@@ -511,7 +518,7 @@ impl SipResolver {
         // RFC 3263 §4.3: Fallback to A/AAAA if no SRV records. This is
         // the Twilio Secure Trunking path (hostname URI, no SRV).
         if all_targets.is_empty() {
-            let default_port = if uri.is_sips() { 5061 } else { 5060 };
+            let default_port = Self::default_port(uri);
             let ips = self.lookup_a_aaaa(host).await?;
             for ip in ips {
                 all_targets.push(
@@ -1205,7 +1212,7 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
             match server {
                 DhcpSipServer::Ipv4(addr) => {
                     // Use IPv4 address directly
-                    let port = if uri.is_sips() { 5061 } else { 5060 };
+                    let port = SipResolver::default_port(uri);
                     let transport = SipResolver::default_transport(uri);
                     all_targets.push(DnsTarget::unchecked_new(addr.to_string(), port, transport));
                 }
@@ -1293,7 +1300,7 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                 for server in servers {
                     match server {
                         DhcpSipServer::Ipv4(addr) => {
-                            let port = if uri.is_sips() { 5061 } else { 5060 };
+                            let port = SipResolver::default_port(uri);
                             let transport = SipResolver::default_transport(uri);
                             all_targets.push(DnsTarget::unchecked_new(
                                 addr.to_string(),
-- 
2.43.0


From c28fd3e2db9ff416660949b537208111cae67b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 066/132] fix: a malformed DHCP server name does not keep the
 other servers from being used

---
 crates/sip-dns/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 58b3e44..80b1f4c 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1218,11 +1218,11 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
                 }
                 DhcpSipServer::Domain(domain) => {
                     // Create a temporary URI with the DHCP domain for DNS resolution
-                    let temp_uri = uri
-                        .clone()
-                        .with_host(domain.clone())
-                        .map_err(|e| anyhow!(e))?
-                        .without_port();
+                    // A name no URI can hold resolves to nothing
+                    let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                        continue;
+                    };
+                    let temp_uri = temp_uri.without_port();
 
                     // Resolve the domain via DNS (RFC 3263)
                     if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
@@ -1309,11 +1309,11 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                             ));
                         }
                         DhcpSipServer::Domain(domain) => {
-                            let temp_uri = uri
-                                .clone()
-                                .with_host(domain.clone())
-                                .map_err(|e| anyhow!(e))?
-                                .without_port();
+                            // A name no URI can hold resolves to nothing
+                            let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                                continue;
+                            };
+                            let temp_uri = temp_uri.without_port();
 
                             if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                                 all_targets.extend(targets);
-- 
2.43.0


From b7bbaafecf16c28f18af10d2840c0473b89b2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 067/132] fix: a ringing call is not ended by the INVITE
 timeout

---
 crates/sip-transaction/src/fsm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index cfcc81c..5374212 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -504,9 +504,7 @@ impl ClientInviteFsm {
                 }
             }
             (Calling, ClientInviteEvent::TimerFired(TransactionTimer::A)) => self.handle_timer_a(),
-            (Calling | Proceeding, ClientInviteEvent::TimerFired(TransactionTimer::B)) => {
-                self.handle_timer_b()
-            }
+            (Calling, ClientInviteEvent::TimerFired(TransactionTimer::B)) => self.handle_timer_b(),
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
@@ -548,6 +546,9 @@ impl ClientInviteFsm {
         self.state = crate::ClientInviteState::Proceeding;
         let mut actions = vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
+            // Timer B runs in Calling only (RFC 3261 Figure 5): once the
+            // callee answers, how long it rings is up to the user.
+            ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
         ];
         if response_requires_prack(&response) {
-- 
2.43.0


From b75ec8370f90a090340c4677e0286b758db0855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 068/132] fix: a retransmitted final response to an INVITE is
 not delivered twice

---
 crates/sip-transaction/src/fsm.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 5374212..f9db6e0 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -588,8 +588,16 @@ impl ClientInviteFsm {
         current_state: crate::ClientInviteState,
         response: Response,
     ) -> Vec<ClientInviteAction> {
+        if matches!(current_state, crate::ClientInviteState::Completed) {
+            // A retransmitted final response is acknowledged again but not
+            // passed up again (RFC 3261 §17.1.1.2).
+            return vec![ClientInviteAction::GenerateAck {
+                response,
+                is_2xx: false,
+            }];
+        }
         self.state = crate::ClientInviteState::Completed;
-        let mut actions = vec![
+        vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
             ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
@@ -597,14 +605,11 @@ impl ClientInviteFsm {
                 response,
                 is_2xx: false,
             },
-        ];
-        if !matches!(current_state, crate::ClientInviteState::Completed) {
-            actions.push(ClientInviteAction::Schedule {
+            ClientInviteAction::Schedule {
                 timer: TransactionTimer::D,
                 duration: self.timers.duration(TransactionTimer::D), // 0 for TCP/TLS, 32s for UDP
-            });
-        }
-        actions
+            },
+        ]
     }
 
     fn handle_timer_a(&mut self) -> Vec<ClientInviteAction> {
-- 
2.43.0


From fb201e6bd9de77067726da9e528e5a1fd94d6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 069/132] fix: requests answered provisionally are
 retransmitted every T2

---
 crates/sip-transaction/src/fsm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index f9db6e0..61830e2 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -772,7 +772,11 @@ impl ClientNonInviteFsm {
         }
 
         let t2 = self.timers.duration(TransactionTimer::T2);
-        self.e_interval = (self.e_interval * 2).min(t2);
+        self.e_interval = match self.state {
+            // Once a provisional response is in, T2 (RFC 3261 §17.1.2.2)
+            ClientNonInviteState::Proceeding => t2,
+            _ => (self.e_interval * 2).min(t2),
+        };
         if let Some(payload) = &self.last_request {
             vec![
                 ClientAction::Transmit {
-- 
2.43.0


From 3306dcb0fecbde06aa9f6e3a442ef6be411fab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 070/132] fix: an ACK outside a transaction does not occupy one

---
 crates/sip-transaction/src/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 7c04dd5..9d40fc9 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -790,6 +790,12 @@ impl TransactionManager {
                     };
                 }
             }
+            // Any other ACK is no transaction of its own (RFC 3261 §17): it
+            // is never answered, so an entry for it would never end.
+            return ServerTransactionHandle {
+                manager: self.clone(),
+                key: invite_key,
+            };
         }
 
         if let Some(mut entry) = self.inner.server.get_mut(&key) {
-- 
2.43.0


From 84b336bd6fc811beca962692d7c8b15af161afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 071/132] fix: the branch of the topmost of several
 comma-separated Via values

---
 crates/sip-transaction/src/lib.rs | 38 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/crates/sip-transaction/src/lib.rs b/crates/sip-transaction/src/lib.rs
index fcaf4c9..6ad76aa 100644
--- a/crates/sip-transaction/src/lib.rs
+++ b/crates/sip-transaction/src/lib.rs
@@ -94,15 +94,37 @@ pub fn top_via(req: &Request) -> Option<&SmolStr> {
 
 /// Extracts the `branch=` parameter from a Via header string.
 pub fn branch_from_via(via: &str) -> Option<&str> {
-    via.split(';').skip(1).find_map(|part| {
-        let mut split = part.splitn(2, '=');
-        let name = split.next()?.trim();
-        let value = split.next()?.trim();
-        if name.eq_ignore_ascii_case("branch") {
-            Some(value)
-        } else {
-            None
+    // The first of several comma-separated values, not counting separators
+    // inside quoted parameter values.
+    let (mut quoted, mut escaped) = (false, false);
+    let mut start = None;
+    let mut params = Vec::new();
+    let mut end = via.len();
+    for (i, c) in via.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '"' => quoted = !quoted,
+            ',' if !quoted => {
+                end = i;
+                break;
+            }
+            ';' if !quoted => {
+                if let Some(start) = start.replace(i + 1) {
+                    params.push(&via[start..i]);
+                }
+            }
+            _ => {}
         }
+    }
+    if let Some(start) = start {
+        params.push(&via[start..end]);
+    }
+    params.into_iter().find_map(|part| {
+        let (name, value) = part.split_once('=')?;
+        name.trim()
+            .eq_ignore_ascii_case("branch")
+            .then(|| value.trim())
     })
 }
 
-- 
2.43.0


From 8f2fb276bf627d15cd02212f5db26d1787535277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 072/132] fix: requests duplicated at the same moment share one
 server transaction

---
 crates/sip-transaction/src/manager.rs | 36 ++++++++++++++++++---------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 9d40fc9..b0fb559 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -12,7 +12,7 @@ use std::{
 use anyhow::{anyhow, Result};
 use async_trait::async_trait;
 use bytes::Bytes;
-use dashmap::DashMap;
+use dashmap::{mapref::entry::Entry, DashMap};
 use sip_core::{Headers, Method, Request, Response};
 use sip_parse::serialize_response;
 use sip_transport::pool::ConnectionPool;
@@ -833,26 +833,19 @@ impl TransactionManager {
 
         let method = request.method().clone();
         let transport_type = TransportType::from(transport);
-        self.inner.metrics.record_start(
-            transport_type,
-            &format!("{:?}", method),
-            TransactionRole::Server,
-        );
-        if let Some(via) = top_via(&request) {
-            self.inner.metrics.record_via_transport(via);
-        }
+        let via = top_via(&request).cloned();
         // Enforce transaction limits (evict oldest if at limit) before creating new entry
         self.enforce_server_transaction_limit();
 
         let mut entry = ServerEntry {
-            kind: match method {
+            kind: match &method {
                 Method::Invite => ServerKind::Invite(ServerInviteFsm::new(timers)),
                 _ => ServerKind::NonInvite(ServerNonInviteFsm::new(timers)),
             },
             ctx,
             timers: HashMap::new(),
             start_time: Instant::now(),
-            method,
+            method: method.clone(),
         };
 
         let actions = match &mut entry.kind {
@@ -862,7 +855,26 @@ impl TransactionManager {
             }
         };
 
-        self.inner.server.insert(key.clone(), entry);
+        // A duplicate handled concurrently may have got here first: then this
+        // is a retransmission and must not replace the transaction's state.
+        let actions = match self.inner.server.entry(key.clone()) {
+            Entry::Occupied(existing) => match &existing.get().kind {
+                ServerKind::Invite(fsm) => fsm.on_retransmit(),
+                ServerKind::NonInvite(fsm) => map_server_actions(fsm.on_retransmit()),
+            },
+            Entry::Vacant(slot) => {
+                slot.insert(entry);
+                self.inner.metrics.record_start(
+                    transport_type,
+                    &format!("{:?}", method),
+                    TransactionRole::Server,
+                );
+                if let Some(via) = via {
+                    self.inner.metrics.record_via_transport(&via);
+                }
+                actions
+            }
+        };
         self.apply_server_actions(&key, actions).await;
 
         ServerTransactionHandle {
-- 
2.43.0


From 87aa8ceee6c54186a844cc34ce838d0d22f5743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 073/132] fix: every ended transaction is counted as ended,
 with its outcome

---
 crates/sip-transaction/src/manager.rs | 62 +++++++++++++++++++++------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index b0fb559..c11573d 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -362,6 +362,18 @@ enum ClientRuntimeActions {
     NonInvite(Vec<ClientAction>),
 }
 
+fn outcome_of(reason: &str) -> TransactionOutcome {
+    if reason.contains("Timer") {
+        TransactionOutcome::Timeout
+    } else if reason.contains("transport") {
+        TransactionOutcome::TransportError
+    } else if reason.contains("CANCEL") {
+        TransactionOutcome::Cancelled
+    } else {
+        TransactionOutcome::Completed
+    }
+}
+
 fn map_server_actions(actions: Vec<ServerAction>) -> Vec<ServerInviteAction> {
     actions
         .into_iter()
@@ -670,6 +682,11 @@ impl TransactionManager {
                 );
                 if let Some((_, mut entry)) = self.inner.server.remove(&oldest_key) {
                     entry.cancel_all();
+                    self.inner.metrics.record_complete(
+                        TransportType::from(transport_kind_to_transport(entry.ctx.transport)),
+                        &format!("{:?}", entry.method),
+                        TransactionRole::Server,
+                    );
                 }
                 return true;
             }
@@ -693,6 +710,11 @@ impl TransactionManager {
                 );
                 if let Some((_, mut entry)) = self.inner.client.remove(&oldest_key) {
                     entry.cancel_all();
+                    self.inner.metrics.record_complete(
+                        TransportType::from(transport_kind_to_transport(entry.ctx.transport)),
+                        &format!("{:?}", entry.method),
+                        TransactionRole::Client,
+                    );
                     // Notify TU that transaction was terminated due to resource limits
                     let tu = entry.tu.clone();
                     let key_clone = oldest_key.clone();
@@ -1213,9 +1235,14 @@ impl TransactionManager {
                         entry.cancel_timer(timer);
                     }
                 }
-                ServerInviteAction::Terminate { .. } => {
+                ServerInviteAction::Terminate { reason } => {
                     if let Some((_, mut entry)) = self.inner.server.remove(key) {
                         entry.cancel_all();
+                        let outcome = match reason.as_str() {
+                            // The ordinary ends of a server transaction
+                            "Timer I expired" | "Timer J expired" => TransactionOutcome::Completed,
+                            other => outcome_of(other),
+                        };
                         let duration = entry.start_time.elapsed();
                         let transport =
                             TransportType::from(transport_kind_to_transport(entry.ctx.transport));
@@ -1226,7 +1253,7 @@ impl TransactionManager {
                         );
                         self.inner
                             .metrics
-                            .record_transaction_outcome(transport, TransactionOutcome::Completed);
+                            .record_transaction_outcome(transport, outcome);
                         self.inner.metrics.record_complete(
                             transport,
                             &format!("{:?}", entry.method),
@@ -1378,7 +1405,24 @@ impl TransactionManager {
                         drop(entry);
                         tu.on_terminated(key, reason.as_str()).await;
                     }
-                    self.inner.client.remove(key);
+                    if let Some((_, entry)) = self.inner.client.remove(key) {
+                        let duration = entry.start_time.elapsed();
+                        let transport =
+                            TransportType::from(transport_kind_to_transport(entry.ctx.transport));
+                        self.inner.metrics.record_transaction_duration(
+                            transport,
+                            &format!("{:?}", entry.method),
+                            duration,
+                        );
+                        self.inner
+                            .metrics
+                            .record_transaction_outcome(transport, outcome_of(&reason));
+                        self.inner.metrics.record_complete(
+                            transport,
+                            &format!("{:?}", entry.method),
+                            TransactionRole::Client,
+                        );
+                    }
                 }
             }
         }
@@ -1423,16 +1467,6 @@ impl TransactionManager {
                         let duration = entry.start_time.elapsed();
                         let transport =
                             TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-                        let outcome = if reason.contains("Timer") {
-                            TransactionOutcome::Timeout
-                        } else if reason.contains("transport") {
-                            TransactionOutcome::TransportError
-                        } else if reason.contains("CANCEL") {
-                            TransactionOutcome::Cancelled
-                        } else {
-                            TransactionOutcome::Completed
-                        };
-
                         self.inner.metrics.record_transaction_duration(
                             transport,
                             &format!("{:?}", entry.method),
@@ -1440,7 +1474,7 @@ impl TransactionManager {
                         );
                         self.inner
                             .metrics
-                            .record_transaction_outcome(transport, outcome);
+                            .record_transaction_outcome(transport, outcome_of(&reason));
                         self.inner.metrics.record_complete(
                             transport,
                             &format!("{:?}", entry.method),
-- 
2.43.0


From f9ef628b22d14ae8bd3f887014a0427cac816599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 074/132] fix: requests are counted by the transport in their
 Via, not by the whole value

---
 crates/sip-transaction/src/manager.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index c11573d..ab2a683 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -362,6 +362,19 @@ enum ClientRuntimeActions {
     NonInvite(Vec<ClientAction>),
 }
 
+/// The transport named by a Via value, as one of a fixed set of names.
+fn via_transport(via: &str) -> Option<&'static str> {
+    let protocol = via.split(';').next()?;
+    let token = protocol.splitn(3, '/').nth(2)?.split_whitespace().next()?;
+    let known = ["UDP", "TCP", "TLS", "WS", "WSS", "SCTP", "TLS-SCTP"];
+    Some(
+        known
+            .into_iter()
+            .find(|name| name.eq_ignore_ascii_case(token))
+            .unwrap_or("other"),
+    )
+}
+
 fn outcome_of(reason: &str) -> TransactionOutcome {
     if reason.contains("Timer") {
         TransactionOutcome::Timeout
@@ -891,8 +904,9 @@ impl TransactionManager {
                     &format!("{:?}", method),
                     TransactionRole::Server,
                 );
-                if let Some(via) = via {
-                    self.inner.metrics.record_via_transport(&via);
+                // The transport alone: whole Via values are as many as requests
+                if let Some(transport) = via.as_deref().and_then(via_transport) {
+                    self.inner.metrics.record_via_transport(transport);
                 }
                 actions
             }
-- 
2.43.0


From 0fb027ab0d103c73ad6fd78a7298ed9413da2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 075/132] fix: first transmissions and timeouts are not counted
 as retransmissions

---
 crates/sip-transaction/src/manager.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index ab2a683..bcab906 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -375,6 +375,13 @@ fn via_transport(via: &str) -> Option<&'static str> {
     )
 }
 
+fn is_retransmission_timer(timer: TransactionTimer) -> bool {
+    matches!(
+        timer,
+        TransactionTimer::A | TransactionTimer::E | TransactionTimer::G
+    )
+}
+
 fn outcome_of(reason: &str) -> TransactionOutcome {
     if reason.contains("Timer") {
         TransactionOutcome::Timeout
@@ -1100,7 +1107,9 @@ impl TransactionManager {
             entry.cancel_timer(timer);
             let transport_type =
                 TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-            self.inner.metrics.record_retransmission(transport_type);
+            if is_retransmission_timer(timer) {
+                self.inner.metrics.record_retransmission(transport_type);
+            }
             let actions = match &mut entry.kind {
                 ServerKind::Invite(fsm) => fsm.on_event(ServerInviteEvent::TimerFired(timer)),
                 ServerKind::NonInvite(fsm) => {
@@ -1120,7 +1129,9 @@ impl TransactionManager {
             entry.cancel_timer(timer);
             let transport_type =
                 TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-            self.inner.metrics.record_retransmission(transport_type);
+            if is_retransmission_timer(timer) {
+                self.inner.metrics.record_retransmission(transport_type);
+            }
             let actions = match &mut entry.kind {
                 ClientKind::Invite(fsm) => {
                     ClientRuntimeActions::Invite(fsm.on_event(ClientInviteEvent::TimerFired(timer)))
@@ -1370,11 +1381,6 @@ impl TransactionManager {
 
             match action {
                 ClientInviteAction::Transmit { bytes, .. } => {
-                    if let Some(entry) = self.inner.client.get(key) {
-                        let transport_type =
-                            TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-                        self.inner.metrics.record_retransmission(transport_type);
-                    }
                     self.dispatch_with_failover(key, bytes).await;
                 }
                 ClientInviteAction::Deliver(response) => {
@@ -1450,11 +1456,6 @@ impl TransactionManager {
         for action in actions {
             match action {
                 ClientAction::Transmit { bytes, .. } => {
-                    if let Some(entry) = self.inner.client.get(key) {
-                        let transport_type =
-                            TransportType::from(transport_kind_to_transport(entry.ctx.transport));
-                        self.inner.metrics.record_retransmission(transport_type);
-                    }
                     self.dispatch_with_failover(key, bytes).await;
                 }
                 ClientAction::Deliver(response) => {
-- 
2.43.0


From 81441b77cde87c3a5d11a2cf578e89ffdc1989eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 076/132] fix: each of several Via values on one line counts as
 a hop of its own

---
 crates/sip-proxy/src/lib.rs     | 111 +++++++++++++++++++++-----------
 crates/sip-proxy/src/service.rs |  21 ++----
 2 files changed, 78 insertions(+), 54 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 16fcef0..fcb972b 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -86,6 +86,40 @@ fn compute_loop_branch(request: &Request, proxy_host: &str) -> String {
     format!("{}{}", BRANCH_MAGIC, hex::encode(&digest[..16]))
 }
 
+/// Splits `value` at every `separator` outside quoted strings and angle
+/// brackets.
+fn split_outside_quotes(value: &str, separator: char) -> Vec<&str> {
+    let (mut quoted, mut escaped, mut bracketed) = (false, false, false);
+    let mut parts = Vec::new();
+    let mut start = 0;
+    for (i, c) in value.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '"' => quoted = !quoted,
+            '<' if !quoted => bracketed = true,
+            '>' if !quoted => bracketed = false,
+            c if c == separator && !quoted && !bracketed => {
+                parts.push(&value[start..i]);
+                start = i + c.len_utf8();
+            }
+            _ => {}
+        }
+    }
+    parts.push(&value[start..]);
+    parts
+}
+
+/// All Via values of a message, topmost first; a header line may hold
+/// several, separated by commas (RFC 3261 §7.3.1).
+fn via_values(headers: &Headers) -> impl Iterator<Item = &str> {
+    headers
+        .iter()
+        .filter(|h| h.name().eq_ignore_ascii_case("Via") || h.name().eq_ignore_ascii_case("v"))
+        .flat_map(|h| split_outside_quotes(h.value(), ','))
+        .map(str::trim)
+}
+
 /// Extracts the `sent-by` (host[:port]) from a Via header value.
 fn extract_via_sent_by(value: &str) -> Option<&str> {
     let after_proto = value.split_whitespace().nth(1)?;
@@ -93,18 +127,26 @@ fn extract_via_sent_by(value: &str) -> Option<&str> {
 }
 
 /// Returns true if a Via `sent-by` references `proxy_host`. Matches
-/// `host` or `host:port` case-insensitively.
+/// `host` or `host:port` case-insensitively; an IPv6 host is in brackets.
 fn sent_by_matches_host(sent_by: &str, proxy_host: &str) -> bool {
-    let host = sent_by.split(':').next().unwrap_or(sent_by);
-    host.eq_ignore_ascii_case(proxy_host)
+    let host = match sent_by.find(']') {
+        Some(end) => &sent_by[..=end],
+        None => sent_by.split(':').next().unwrap_or(sent_by),
+    };
+    host.eq_ignore_ascii_case(proxy_host) || sent_by.eq_ignore_ascii_case(proxy_host)
 }
 
 /// Extracts the `branch` parameter from a Via header value, if any.
 fn extract_via_branch(value: &str) -> Option<&str> {
-    value
-        .split(';')
-        .map(str::trim)
-        .find_map(|p| p.strip_prefix("branch="))
+    split_outside_quotes(value, ';')
+        .into_iter()
+        .skip(1)
+        .find_map(|p| {
+            let (name, value) = p.split_once('=')?;
+            name.trim()
+                .eq_ignore_ascii_case("branch")
+                .then(|| value.trim())
+        })
 }
 
 impl ProxyHelpers {
@@ -203,6 +245,13 @@ impl ProxyHelpers {
             for (i, header) in headers.clone().into_iter().enumerate() {
                 if i != index {
                     new_headers.push(header);
+                    continue;
+                }
+                // The line may hold further values: only the first goes.
+                let top = split_outside_quotes(header.value(), ',')[0].len();
+                let rest = header.value().get(top + 1..).unwrap_or("").trim();
+                if !rest.is_empty() {
+                    new_headers.extend(Header::new(header.name(), rest));
                 }
             }
             *headers =
@@ -245,13 +294,7 @@ impl ProxyHelpers {
     /// proxy's host literal appeared in any Via for any reason.
     pub fn detect_loop_hashed(request: &Request, proxy_host: &str) -> Result<()> {
         let expected_branch = compute_loop_branch(request, proxy_host);
-        for header in request.headers().iter() {
-            if !header.name().eq_ignore_ascii_case("Via")
-                && !header.name().eq_ignore_ascii_case("v")
-            {
-                continue;
-            }
-            let value = header.value();
+        for value in via_values(request.headers()) {
             let Some(sent_by) = extract_via_sent_by(value) else {
                 continue;
             };
@@ -289,31 +332,21 @@ impl ProxyHelpers {
     /// * `Ok(())` - No loop detected
     /// * `Err(_)` - Loop detected (respond with 482 Loop Detected)
     pub fn detect_loop(request: &Request, proxy_host: &str) -> Result<()> {
-        let mut via_count = 0;
-        for header in request.headers().iter() {
-            if header.name().eq_ignore_ascii_case("Via") || header.name().eq_ignore_ascii_case("v")
-            {
-                via_count += 1;
-                if via_count > MAX_VIA_HOPS {
-                    return Err(anyhow!(
-                        "Via hop count {} exceeds maximum {} - possible routing loop",
-                        via_count,
-                        MAX_VIA_HOPS
-                    ));
-                }
-                // Check if this Via contains our own host
-                let value = header.value();
-                // Via format: SIP/2.0/TRANSPORT host[:port];params
-                if let Some(host_part) = value.split_whitespace().nth(1) {
-                    let host = host_part.split(';').next().unwrap_or(host_part);
-                    let host = host.split(':').next().unwrap_or(host);
-                    if host.eq_ignore_ascii_case(proxy_host) {
-                        return Err(anyhow!(
-                            "Via header contains proxy host {} - routing loop detected (482)",
-                            proxy_host
-                        ));
-                    }
-                }
+        for (hop, value) in via_values(request.headers()).enumerate() {
+            if hop >= MAX_VIA_HOPS {
+                return Err(anyhow!(
+                    "Via hop count {} exceeds maximum {} - possible routing loop",
+                    hop + 1,
+                    MAX_VIA_HOPS
+                ));
+            }
+            // Check if this Via contains our own host
+            // Via format: SIP/2.0/TRANSPORT host[:port];params
+            if extract_via_sent_by(value).is_some_and(|by| sent_by_matches_host(by, proxy_host)) {
+                return Err(anyhow!(
+                    "Via header contains proxy host {} - routing loop detected (482)",
+                    proxy_host
+                ));
             }
         }
         Ok(())
diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 6137df8..0d76732 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -234,22 +234,13 @@ fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str)
 }
 
 fn extract_top_via_branch(request: &Request) -> Result<SmolStr> {
-    let via = request
-        .headers()
-        .iter()
-        .find(|h| h.name().eq_ignore_ascii_case("Via"))
+    let via = crate::via_values(request.headers())
+        .next()
         .ok_or_else(|| anyhow!("Missing Via header"))?;
 
-    for part in via.value().split(';') {
-        let trimmed = part.trim();
-        if trimmed.len() >= 7 && trimmed[..7].eq_ignore_ascii_case("branch=") {
-            let branch = &trimmed[7..];
-            if is_valid_branch(branch) {
-                return Ok(SmolStr::new(branch));
-            }
-            return Err(anyhow!("Invalid Via branch parameter"));
-        }
+    match crate::extract_via_branch(via) {
+        Some(branch) if is_valid_branch(branch) => Ok(SmolStr::new(branch)),
+        Some(_) => Err(anyhow!("Invalid Via branch parameter")),
+        None => Err(anyhow!("Via header missing branch parameter")),
     }
-
-    Err(anyhow!("Via header missing branch parameter"))
 }
-- 
2.43.0


From 241dde8cc66a16fea49ffdc2dfcad1301ec7129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 077/132] fix: the proxy's Record-Route goes before those
 there, and a full header list does not panic it

---
 crates/sip-proxy/src/lib.rs      | 51 +++++++++++++++++++++++---------
 crates/sip-proxy/src/stateful.rs |  3 ++
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index fcb972b..d44f6ab 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -120,6 +120,13 @@ fn via_values(headers: &Headers) -> impl Iterator<Item = &str> {
         .map(str::trim)
 }
 
+/// The branch of a request's topmost Via.
+fn top_branch(request: &Request) -> Option<&str> {
+    via_values(request.headers())
+        .next()
+        .and_then(extract_via_branch)
+}
+
 /// Extracts the `sent-by` (host[:port]) from a Via header value.
 fn extract_via_sent_by(value: &str) -> Option<&str> {
     let after_proto = value.split_whitespace().nth(1)?;
@@ -149,6 +156,26 @@ fn extract_via_branch(value: &str) -> Option<&str> {
         })
 }
 
+/// Puts a header value before those of the same name already there. When the
+/// message holds as many headers as are allowed, the value joins the line of
+/// the first of them (RFC 3261 §7.3.1).
+fn prepend_header(headers: &mut Headers, name: &str, value: String) -> Result<()> {
+    let first = headers.iter().position(|h| h.name_eq(name));
+    let mut list = headers.clone().into_inner();
+    list.insert(first.unwrap_or(0), Header::new(name, &value)?);
+    *headers = match (Headers::from_vec(list), first) {
+        (Ok(headers), _) => headers,
+        (Err(e), None) => return Err(e.into()),
+        (Err(_), Some(first)) => {
+            let mut list = headers.clone().into_inner();
+            let joined = format!("{}, {}", value, list[first].value());
+            list[first] = Header::new(name, joined)?;
+            Headers::from_vec(list)?
+        }
+    };
+    Ok(())
+}
+
 impl ProxyHelpers {
     /// Prepends a Via header to the request with a new branch parameter.
     ///
@@ -167,11 +194,9 @@ impl ProxyHelpers {
         let via_value = format!("SIP/2.0/{} {};branch={};rport", transport, host, branch);
 
         // Prepend to existing Via headers
-        let mut new_headers = Vec::new();
-        new_headers.push(Header::new("Via", via_value).expect("via header should be valid"));
-        new_headers.extend(request.headers().clone());
-        *request.headers_mut() =
-            Headers::from_vec(new_headers).expect("via header list should be within limits");
+        if let Err(e) = prepend_header(request.headers_mut(), "Via", via_value) {
+            tracing::warn!(error = %e, "no room for a Via header");
+        }
 
         branch.to_string()
     }
@@ -199,10 +224,10 @@ impl ProxyHelpers {
         } else {
             format!("<{};lr>", proxy_uri.as_str())
         };
-        request
-            .headers_mut()
-            .push("Record-Route", rr_value)
-            .unwrap();
+        // RFC 3261 §16.6 step 4: before any existing Record-Route values
+        if let Err(e) = prepend_header(request.headers_mut(), "Record-Route", rr_value) {
+            tracing::warn!(error = %e, "no room for a Record-Route header");
+        }
     }
 
     /// Decrements Max-Forwards header and checks for loop.
@@ -274,11 +299,9 @@ impl ProxyHelpers {
         let branch = compute_loop_branch(request, host);
         let via_value = format!("SIP/2.0/{} {};branch={};rport", transport, host, branch);
 
-        let mut new_headers = Vec::new();
-        new_headers.push(Header::new("Via", via_value).expect("via header should be valid"));
-        new_headers.extend(request.headers().clone());
-        *request.headers_mut() =
-            Headers::from_vec(new_headers).expect("via header list should be within limits");
+        if let Err(e) = prepend_header(request.headers_mut(), "Via", via_value) {
+            tracing::warn!(error = %e, "no room for a Via header");
+        }
 
         branch
     }
diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a35c766..3125ba3 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -1014,6 +1014,9 @@ pub mod forwarding {
 
         // Add Via header with new branch
         let branch_id = ProxyHelpers::add_via(&mut forwarded, proxy_host, transport);
+        if crate::top_branch(&forwarded) != Some(branch_id.as_str()) {
+            return Err(anyhow::anyhow!("no room for a Via header"));
+        }
 
         // Optionally add Record-Route
         if add_record_route {
-- 
2.43.0


From 1f95d1e66b0419c29f2ca2cfa687fc10c80e960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 078/132] fix: a forked request is answered with one final
 response

---
 crates/sip-proxy/src/stateful.rs | 78 ++++++++++++++++++++++++++++----
 1 file changed, 70 insertions(+), 8 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 3125ba3..5a11859 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -30,12 +30,12 @@ use crate::cancel_ack::{AckForwarder, CancelForwarder};
 use crate::ProxyHelpers;
 use anyhow::Result;
 use dashmap::DashMap;
-use sip_core::{Request, Response, SipUri};
+use sip_core::{Method, Request, Response, SipUri};
 use smol_str::SmolStr;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::{Duration, Instant};
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tracing::{debug, info, warn};
 
 // Security constants for DoS prevention
@@ -307,6 +307,15 @@ pub struct ProxyContext {
     /// [...] and MUST NOT create any new branches in this context."
     /// `add_branch` honours this flag.
     terminated_by_6xx: RwLock<bool>,
+
+    /// Set once the final response has been given out for forwarding.
+    /// From then on only further 2xx responses to an INVITE are (RFC
+    /// 3261 §16.7 step 5).
+    final_forwarded: RwLock<bool>,
+
+    /// Held while a response is processed: what is forwarded depends on
+    /// all the branches, so two responses are never judged at once.
+    turn: Mutex<()>,
 }
 
 impl ProxyContext {
@@ -361,6 +370,8 @@ impl ProxyContext {
             created_at: Instant::now(),
             timer_c_duration,
             terminated_by_6xx: RwLock::new(false),
+            final_forwarded: RwLock::new(false),
+            turn: Mutex::new(()),
         }
     }
 
@@ -370,6 +381,7 @@ impl ProxyContext {
     /// already received a 6xx response — RFC 3261 §16.7 #4 forbids
     /// new branches in that state.
     pub async fn add_branch(&self, branch_info: BranchInfo) -> Result<(), ProxyError> {
+        let _turn = self.turn.lock().await;
         if *self.terminated_by_6xx.read().await {
             return Err(ProxyError::TerminatedBy6xx);
         }
@@ -383,8 +395,18 @@ impl ProxyContext {
         }
 
         let mut count = self.outstanding_count.write().await;
-        branches.insert(branch_info.branch_id.clone(), branch_info);
-        *count += 1;
+        if branches
+            .insert(branch_info.branch_id.clone(), branch_info)
+            .is_none()
+        {
+            *count += 1;
+        }
+        drop(branches);
+        drop(count);
+        // A further target tried after the earlier ones failed decides anew.
+        if self.best_response_is_2xx().await != Some(true) {
+            *self.final_forwarded.write().await = false;
+        }
         Ok(())
     }
 
@@ -412,6 +434,16 @@ impl ProxyContext {
         self: &Arc<Self>,
         branch_id: &str,
         response: Response,
+    ) -> Option<Response> {
+        let _turn = self.turn.lock().await;
+        self.process_response_in_turn(branch_id, response).await
+    }
+
+    /// Does the work of [`Self::process_response`]; the caller holds `turn`.
+    async fn process_response_in_turn(
+        self: &Arc<Self>,
+        branch_id: &str,
+        response: Response,
     ) -> Option<Response> {
         let is_final = response.code() >= 200;
         let is_two_xx = (200..300).contains(&response.code());
@@ -419,6 +451,9 @@ impl ProxyContext {
         // cancel siblings AND prevent any further forking via
         // `add_branch`.
         let is_six_xx = (600..700).contains(&response.code());
+        let is_invite = *self.original_request.method() == Method::Invite;
+        let already_forwarded = *self.final_forwarded.read().await;
+        let repeated;
 
         // Mutate the branch in its own scope so the write guard
         // releases before we call cancel_other_branches below.
@@ -427,6 +462,16 @@ impl ProxyContext {
             let branch = branches.get_mut(branch_id)?;
 
             let was_trying = matches!(branch.state, BranchState::Trying);
+            repeated = matches!(branch.state, BranchState::Completed);
+
+            // Nothing but a further 2xx to an INVITE matters once the
+            // branch has answered, and no provisional response once it has
+            // been cancelled.
+            if repeated && !(is_two_xx && is_invite)
+                || !is_final && matches!(branch.state, BranchState::Cancelled)
+            {
+                return None;
+            }
 
             if response.code() >= 100 && response.code() < 200 {
                 branch.state = BranchState::Proceeding;
@@ -452,15 +497,20 @@ impl ProxyContext {
         // released. Holding two write locks is fine in principle but
         // keeping them strictly serialised keeps the lock graph
         // trivial.
-        if is_final {
+        if is_final && !repeated {
             let mut count = self.outstanding_count.write().await;
             if *count > 0 {
                 *count -= 1;
             }
         }
 
-        // Handle provisional responses (always forward first 1xx per RFC 3261)
+        // Provisional responses are forwarded as they arrive while no final
+        // response has been, except 100, which is for this hop alone (RFC
+        // 3261 §16.7 step 5).
         if !is_final {
+            if response.code() == 100 || already_forwarded {
+                return None;
+            }
             debug!(
                 "Forwarding provisional {} response from branch {}",
                 response.code(),
@@ -469,6 +519,13 @@ impl ProxyContext {
             return Some(response);
         }
 
+        if already_forwarded {
+            if is_two_xx && is_invite {
+                return Some(response);
+            }
+            return None;
+        }
+
         // Handle final responses with response selection. The result
         // is computed inside a small scope so the best_final write
         // guard isn't held across `cancel_other_branches`.
@@ -495,6 +552,7 @@ impl ProxyContext {
                 "Selected {} (2xx) — forwarding immediately and cancelling siblings",
                 response.code(),
             );
+            *self.final_forwarded.write().await = true;
             self.cancel_other_branches(branch_id).await;
             return Some(response);
         }
@@ -509,6 +567,7 @@ impl ProxyContext {
             // could even override the global failure with a 4xx that
             // arrives later.
             *self.terminated_by_6xx.write().await = true;
+            *self.final_forwarded.write().await = true;
             self.cancel_other_branches(branch_id).await;
             return Some(response);
         }
@@ -521,6 +580,7 @@ impl ProxyContext {
             // has been released.
             let best = self.best_final.read().await.clone();
             if let Some(mut best) = best {
+                *self.final_forwarded.write().await = true;
                 // RFC 3261 §16.7 #7: if the best response is 401 /
                 // 407, aggregate WWW-Authenticate / Proxy-Authenticate
                 // from every branch that returned 401 / 407 into the
@@ -712,6 +772,7 @@ impl ProxyContext {
     /// normal response-selection path via `process_response` so the
     /// upstream transaction sees a final response and unblocks.
     async fn fire_timer_c(self: &Arc<Self>, branch_id: &str) {
+        let _turn = self.turn.lock().await;
         {
             let branches = self.branches.read().await;
             let Some(branch) = branches.get(branch_id) else {
@@ -749,7 +810,7 @@ impl ProxyContext {
             call_id = %self.call_id,
             "Timer C fired (RFC 3261 §16.7 step 2) — synthesising 408 Request Timeout"
         );
-        if let Some(to_forward) = self.process_response(branch_id, synthetic).await {
+        if let Some(to_forward) = self.process_response_in_turn(branch_id, synthetic).await {
             // Best-effort: push the synthesised 408 to the response
             // channel. If the receiver has already gone away (context
             // torn down) we silently drop — nothing to do.
@@ -780,6 +841,7 @@ impl ProxyContext {
     /// dispatcher can ignore the return value — the response is also
     /// pushed to the context's response channel.
     pub async fn report_transport_error(self: &Arc<Self>, branch_id: &str) -> Option<Response> {
+        let _turn = self.turn.lock().await;
         // Skip branches that already moved past Trying/Proceeding —
         // a successful 2xx or a real 5xx has already been recorded
         // and the transport error is now irrelevant.
@@ -811,7 +873,7 @@ impl ProxyContext {
             call_id = %self.call_id,
             "transport error reported (RFC 3261 §16.9) — synthesising 503 Service Unavailable"
         );
-        let forwarded = self.process_response(branch_id, synthetic).await;
+        let forwarded = self.process_response_in_turn(branch_id, synthetic).await;
         if let Some(ref to_forward) = forwarded {
             let _ = self.response_tx.send(to_forward.clone());
         }
-- 
2.43.0


From 22b794f9777c94f3fcb5fe41ea9d7fe1d41dbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 079/132] fix: Timer C starts anew with every provisional
 response

---
 crates/sip-proxy/src/stateful.rs | 35 ++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 5a11859..a0b25ff 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -180,6 +180,9 @@ pub struct BranchInfo {
 
     /// Best response received so far (for response selection)
     pub(crate) best_response: Option<Response>,
+
+    /// When Timer C was last started on this branch
+    pub(crate) timer_c_start: Option<tokio::time::Instant>,
 }
 
 impl BranchInfo {
@@ -198,6 +201,7 @@ impl BranchInfo {
             created_at,
             state,
             best_response: None,
+            timer_c_start: None,
         })
     }
 
@@ -477,7 +481,11 @@ impl ProxyContext {
                 branch.state = BranchState::Proceeding;
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
-                // doesn't hang the upstream forever.
+                // doesn't hang the upstream forever. Every further
+                // provisional response but 100 restarts it.
+                if was_trying || response.code() > 100 {
+                    branch.timer_c_start = Some(tokio::time::Instant::now());
+                }
                 if was_trying {
                     arm_timer_c(
                         Arc::downgrade(self),
@@ -818,6 +826,15 @@ impl ProxyContext {
         }
     }
 
+    /// How much longer Timer C of a branch runs when a provisional response
+    /// restarted it.
+    async fn timer_c_rest(&self, branch_id: &str) -> Option<Duration> {
+        let branches = self.branches.read().await;
+        let start = branches.get(branch_id)?.timer_c_start?;
+        let rest = self.timer_c_duration.checked_sub(start.elapsed())?;
+        (!rest.is_zero()).then_some(rest)
+    }
+
     /// RFC 3261 §16.9 transport-error handling.
     ///
     /// Per spec: "If the transport layer notifies a proxy of an error
@@ -893,11 +910,17 @@ fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration:
         return;
     };
     handle.spawn(async move {
-        tokio::time::sleep(duration).await;
-        let Some(ctx) = ctx.upgrade() else {
-            return;
-        };
-        ctx.fire_timer_c(&branch_id).await;
+        let mut wait = duration;
+        loop {
+            tokio::time::sleep(wait).await;
+            let Some(ctx) = ctx.upgrade() else {
+                return;
+            };
+            match ctx.timer_c_rest(&branch_id).await {
+                Some(rest) => wait = rest,
+                None => return ctx.fire_timer_c(&branch_id).await,
+            }
+        }
     });
 }
 
-- 
2.43.0


From 522c0136b0c60c98018214eab8902c7773805087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 080/132] fix: responses the proxy makes itself bear all the
 Vias, its own on top

---
 crates/sip-proxy/src/stateful.rs | 53 ++++++++++++++++----------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a0b25ff..416403e 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -771,6 +771,30 @@ impl ProxyContext {
         self.created_at
     }
 
+    /// Builds the response a branch would have sent: like every response the
+    /// context hands out for forwarding it bears the proxy's own Via above
+    /// those of the original request, to be removed before it is sent on.
+    fn synthesise(&self, branch_id: &str, code: u16, reason: &str) -> Option<Response> {
+        use sip_core::{Headers, StatusLine};
+        let mut headers = Headers::new();
+        let via = format!(
+            "SIP/2.0/{} {};branch={}",
+            self.transport, self.proxy_host, branch_id
+        );
+        let _ = headers.push("Via", via);
+        let original = self.original_request.headers();
+        for value in original.get_all("Via") {
+            let _ = headers.push("Via", value);
+        }
+        for name in ["From", "To", "Call-ID", "CSeq"] {
+            if let Some(value) = original.get(name) {
+                let _ = headers.push(name, value);
+            }
+        }
+        let status = StatusLine::new(code, reason).ok()?;
+        Response::new(status, headers, bytes::Bytes::new()).ok()
+    }
+
     /// Synthesises a `408 Request Timeout` for a branch that's stuck in
     /// Proceeding. Invoked by the Timer C task (see `arm_timer_c`).
     ///
@@ -794,22 +818,7 @@ impl ProxyContext {
             }
         }
 
-        // Build the synthetic 408. Use the original request as the
-        // source of the headers we need to echo; this matches the shape
-        // `build_error_response` produces for the registrar / dispatcher.
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        let req = &self.original_request;
-        let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
-            if let Some(value) = req.headers().get(name) {
-                let _ = headers.push(name, value);
-            }
-        }
-        let Ok(status) = StatusLine::new(408, "Request Timeout") else {
-            return;
-        };
-        let Ok(synthetic) = Response::new(status, headers, Bytes::new()) else {
+        let Some(synthetic) = self.synthesise(branch_id, 408, "Request Timeout") else {
             return;
         };
 
@@ -873,17 +882,7 @@ impl ProxyContext {
             }
         }
 
-        use bytes::Bytes;
-        use sip_core::{Headers, Response, StatusLine};
-        let req = &self.original_request;
-        let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
-            if let Some(value) = req.headers().get(name) {
-                let _ = headers.push(name, value);
-            }
-        }
-        let status = StatusLine::new(503, "Service Unavailable").ok()?;
-        let synthetic = Response::new(status, headers, Bytes::new()).ok()?;
+        let synthetic = self.synthesise(branch_id, 503, "Service Unavailable")?;
 
         warn!(
             branch_id,
-- 
2.43.0


From f955c04f6f9876f6ace288aec712ac3de51a523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 081/132] fix: every branch that lost is sent one CANCEL, with
 the one Via of its request

---
 crates/sip-proxy/src/cancel_ack.rs |  9 +++++++--
 crates/sip-proxy/src/service.rs    | 19 +++++++++++++++----
 crates/sip-proxy/src/stateful.rs   | 19 +++++++++++++------
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 035b616..f058064 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -66,7 +66,11 @@ impl CancelForwarder {
             "Preparing CANCEL with branch {} for forwarding",
             target_branch
         );
-        if let Some(via_value) = cancel.headers().get("Via") {
+        // RFC 3261 §9.1: a CANCEL bears a single Via
+        let top = crate::via_values(cancel.headers())
+            .next()
+            .map(str::to_string);
+        if let Some(via_value) = top {
             let mut parts: Vec<String> =
                 via_value.split(';').map(|s| s.trim().to_string()).collect();
 
@@ -83,7 +87,8 @@ impl CancelForwarder {
                 parts.push(format!("branch={}", target_branch));
             }
 
-            let _ = cancel.headers_mut().set_or_push("Via", parts.join(";"));
+            cancel.headers_mut().remove("Via");
+            crate::prepend_header(cancel.headers_mut(), "Via", parts.join(";"))?;
         }
 
         Ok(cancel)
diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 0d76732..8fd83c2 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -180,7 +180,10 @@ impl ProxyService {
 
         // Build CANCELs for losing branches if we have a winning 2xx
         let cancels = if let Some(ref resp) = forward {
-            if resp.code() >= 200 && resp.code() < 300 {
+            // Either settles the call: whoever has not answered is cancelled
+            if matches!(resp.code() / 100, 2 | 6)
+                && *context.original_request.method() == Method::Invite
+            {
                 let cancel_template = build_cancel_template(
                     &context.original_request,
                     context.proxy_host.as_str(),
@@ -209,8 +212,16 @@ impl ProxyService {
 /// Build a CANCEL template from the original INVITE.
 fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str) -> Request {
     let mut headers = original.headers().clone();
-    headers.remove("Content-Type");
-    headers.remove("Content-Length");
+    for name in [
+        "Content-Type",
+        "Content-Length",
+        "Require",
+        "Proxy-Require",
+        // replaced by the one Via of the request to be cancelled
+        "Via",
+    ] {
+        headers.remove(name);
+    }
     let mut cancel = Request::new(
         RequestLine::new(Method::Cancel, original.uri().clone()),
         headers,
@@ -223,7 +234,7 @@ fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str)
 
     // Update CSeq to CANCEL with same sequence number
     if let Some(cseq_val) = cancel.headers().get("CSeq").map(|val| val.to_string()) {
-        if let Some((num, _)) = cseq_val.split_once(' ') {
+        if let Some(num) = cseq_val.split_whitespace().next() {
             let _ = cancel
                 .headers_mut()
                 .set_or_push("CSeq", format!("{} CANCEL", num));
diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 416403e..8eb58ab 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -183,6 +183,9 @@ pub struct BranchInfo {
 
     /// When Timer C was last started on this branch
     pub(crate) timer_c_start: Option<tokio::time::Instant>,
+
+    /// Whether a CANCEL has been built for this branch
+    pub(crate) cancel_built: bool,
 }
 
 impl BranchInfo {
@@ -202,6 +205,7 @@ impl BranchInfo {
             state,
             best_response: None,
             timer_c_start: None,
+            cancel_built: false,
         })
     }
 
@@ -695,18 +699,21 @@ impl ProxyContext {
     /// The provided CANCEL template should already match the original INVITE's
     /// Call-ID/From/To/CSeq; this will rewrite the Via branch per target branch.
     pub async fn build_cancel_requests(&self, cancel_template: &Request) -> Vec<Request> {
-        let branches = self.branches.read().await;
+        let mut branches = self.branches.write().await;
         let mut cancels = Vec::new();
 
-        for (branch_id, branch) in branches.iter() {
-            if matches!(
-                branch.state,
-                BranchState::Cancelled | BranchState::Trying | BranchState::Proceeding
-            ) {
+        for (branch_id, branch) in branches.iter_mut() {
+            if !branch.cancel_built
+                && matches!(
+                    branch.state,
+                    BranchState::Cancelled | BranchState::Trying | BranchState::Proceeding
+                )
+            {
                 match CancelForwarder::prepare_cancel(cancel_template, branch_id.as_str()) {
                     Ok(mut cancel) => {
                         // Ensure Request-URI targets the original branch destination
                         ProxyHelpers::set_request_uri(&mut cancel, branch.target.clone());
+                        branch.cancel_built = true;
                         cancels.push(cancel);
                     }
                     Err(e) => warn!("Failed to prepare CANCEL for branch {}: {}", branch_id, e),
-- 
2.43.0


From 3b0d801e2cb91b10cd6d5ac0934697c0070f942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 082/132] fix: finished and failed forks leave no context
 behind, and a request that cannot be forwarded is refused

---
 crates/sip-proxy/src/service.rs  | 73 ++++++++++++++++++++------------
 crates/sip-proxy/src/stateful.rs |  7 ++-
 2 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 8fd83c2..033e27c 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -114,19 +114,6 @@ impl ProxyService {
             .ok_or_else(|| anyhow!("Missing Call-ID header"))?;
         let client_branch = extract_top_via_branch(&original)?;
 
-        let (context, response_rx) = self
-            .proxy
-            .start_context(
-                original.clone(),
-                call_id.clone(),
-                SmolStr::new(client_branch),
-                SmolStr::new(proxy_host),
-                SmolStr::new(transport),
-                fork_mode,
-            )
-            .map_err(|e| anyhow!(e))?;
-
-        let mut forwarded = Vec::new();
         let mut ordered_targets = targets;
         if matches!(fork_mode, ForkMode::Sequential) {
             ordered_targets.sort_by(|a, b| {
@@ -141,8 +128,11 @@ impl ProxyService {
             ordered_targets.truncate(1);
         }
 
+        let mut forwarded = Vec::new();
+        let mut branches = Vec::new();
+        let mut failed = None;
         for target in ordered_targets {
-            if let Ok((request, branch)) = forwarding::prepare_forward(
+            match forwarding::prepare_forward(
                 &original,
                 &target.uri,
                 proxy_host,
@@ -150,19 +140,47 @@ impl ProxyService {
                 add_record_route,
                 proxy_uri,
             ) {
-                let branch_info = BranchInfo::new(
-                    branch.clone(),
-                    target.uri.clone(),
-                    std::time::Instant::now(),
-                    BranchState::Trying,
-                )
-                .map_err(|e| anyhow!(e))?;
-                forwarded.push((branch.clone(), request.clone()));
-                // Track branch in context
-                context
-                    .add_branch(branch_info)
-                    .await
+                Ok((request, branch)) => {
+                    let branch_info = BranchInfo::new(
+                        branch.clone(),
+                        target.uri.clone(),
+                        std::time::Instant::now(),
+                        BranchState::Trying,
+                    )
                     .map_err(|e| anyhow!(e))?;
+                    branches.push(branch_info);
+                    forwarded.push((branch, request));
+                }
+                Err(e) => failed = Some(e),
+            }
+        }
+        // Nothing could be forwarded: the caller has to answer the request,
+        // with 483 when its Max-Forwards is used up.
+        if let (true, Some(e)) = (forwarded.is_empty(), failed) {
+            return Err(e);
+        }
+
+        // Contexts nobody finished make room for new ones
+        if self.proxy.context_count() >= crate::stateful::MAX_PROXY_CONTEXTS {
+            self.proxy.cleanup_old();
+        }
+        let (context, response_rx) = self
+            .proxy
+            .start_context(
+                original.clone(),
+                call_id.clone(),
+                client_branch.clone(),
+                SmolStr::new(proxy_host),
+                SmolStr::new(transport),
+                fork_mode,
+            )
+            .map_err(|e| anyhow!(e))?;
+
+        for branch_info in branches {
+            // Track branch in context
+            if let Err(e) = context.add_branch(branch_info).await {
+                self.proxy.remove_context(&client_branch);
+                return Err(anyhow!(e));
             }
         }
 
@@ -177,6 +195,9 @@ impl ProxyService {
         response: sip_core::Response,
     ) -> ProxyActions {
         let forward = context.process_response(branch_id, response).await;
+        if context.is_complete().await {
+            self.proxy.remove_context(context.client_branch());
+        }
 
         // Build CANCELs for losing branches if we have a winning 2xx
         let cancels = if let Some(ref resp) = forward {
diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 8eb58ab..2a108aa 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -41,7 +41,7 @@ use tracing::{debug, info, warn};
 // Security constants for DoS prevention
 const MAX_BRANCH_ID_LENGTH: usize = 128;
 const MAX_BRANCHES_PER_CONTEXT: usize = 50;
-const MAX_PROXY_CONTEXTS: usize = 10_000;
+pub(crate) const MAX_PROXY_CONTEXTS: usize = 10_000;
 pub(crate) const MAX_TARGETS_PER_REQUEST: usize = 100;
 
 /// RFC 3261 §16.7 step 2: Timer C duration.
@@ -425,6 +425,11 @@ impl ProxyContext {
         *self.terminated_by_6xx.read().await
     }
 
+    /// Returns true once every branch has been answered.
+    pub async fn is_complete(&self) -> bool {
+        *self.outstanding_count.read().await == 0
+    }
+
     /// Process a response received on a branch
     ///
     /// Returns the response that should be forwarded upstream (if any).
-- 
2.43.0


From 5f4d546bb340f557280cc5b921b6325aa75a096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 083/132] fix: an ACK keeps its target when its route is a
 loose one, and route lists on one line are taken apart

---
 crates/sip-proxy/src/cancel_ack.rs | 103 +++++++++++++----------------
 1 file changed, 47 insertions(+), 56 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index f058064..5b3016a 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -8,7 +8,7 @@
 //! different processing than regular request forwarding.
 
 use anyhow::{anyhow, Result};
-use sip_core::{Request, SipUri};
+use sip_core::{Header, Headers, Request, RouteHeader, SipUri};
 use tracing::debug;
 
 /// CANCEL forwarding per RFC 3261 §16.10
@@ -179,6 +179,31 @@ impl CancelForwarder {
     }
 }
 
+/// Removes and returns the first or last Route value with a SIP URI; a header
+/// line may hold several, separated by commas (RFC 3261 §7.3.1). Leaves
+/// everything as it is when the value is not one.
+fn take_route(headers: &mut Headers, last: bool) -> Option<RouteHeader> {
+    let mut lines = headers
+        .iter()
+        .enumerate()
+        .filter(|(_, h)| h.name_eq("Route"))
+        .map(|(i, h)| (i, h.value().to_string()));
+    let (index, line) = if last { lines.last() } else { lines.next() }?;
+    let mut values = crate::split_outside_quotes(&line, ',');
+    let taken = values.remove(if last { values.len() - 1 } else { 0 });
+    let route = RouteHeader::parse(taken).ok()?;
+    route.uri().as_sip()?;
+
+    let mut list = headers.clone().into_inner();
+    if values.is_empty() {
+        list.remove(index);
+    } else {
+        list[index] = Header::new("Route", values.join(",").trim()).ok()?;
+    }
+    *headers = Headers::from_vec(list).ok()?;
+    Some(route)
+}
+
 /// Extracts the `tag` parameter from a From / To header value.
 /// Returns the tag verbatim (no quoting/escaping rules apply, per
 /// RFC 3261 §19.3) or `None` if absent.
@@ -239,26 +264,13 @@ impl AckForwarder {
 
         // For 2xx ACK, use the first Route (if present) as Request-URI per loose routing
         if matches!(ack_type, AckType::For2xx) {
-            let mut new_headers = Vec::new();
-            let mut used_route = false;
-
-            for header in ack.headers().clone().into_iter() {
-                if header.name().eq_ignore_ascii_case("Route") && !used_route {
-                    let uri_str = header.value().trim_matches(|c| c == '<' || c == '>');
-
-                    if let Ok(uri) = SipUri::parse(uri_str) {
-                        crate::ProxyHelpers::set_request_uri(&mut ack, uri);
-                        used_route = true;
-                        // Skip the consumed Route header
-                        continue;
-                    }
+            // A loose route (RFC 3261 §16.4) only goes; a strict one names
+            // where the request is meant to go next.
+            if let Some(route) = take_route(ack.headers_mut(), false) {
+                if let (false, Some(uri)) = (route.has_lr(), route.uri().as_sip()) {
+                    crate::ProxyHelpers::set_request_uri(&mut ack, uri.clone());
                 }
-
-                new_headers.push(header);
             }
-
-            *ack.headers_mut() = sip_core::Headers::from_vec(new_headers)
-                .expect("validated headers should remain within limits");
         }
 
         // For non-2xx ACK, keep Request-URI/Via intact for hop-by-hop forwarding
@@ -323,40 +335,16 @@ impl RouteProcessor {
         if is_our_uri {
             debug!("Request-URI matches our Record-Route - processing Route headers");
 
-            // Get the last Route header value
-            let route_values: Vec<_> = request
-                .headers()
-                .iter()
-                .filter(|h| h.name().eq_ignore_ascii_case("Route"))
-                .map(|h| h.value_smol().clone())
-                .collect();
-
-            if let Some(last_route) = route_values.last() {
-                // Extract URI from Route header (remove angle brackets)
-                let route_uri_str = last_route.as_str().trim_matches(|c| c == '<' || c == '>');
-
-                if let Ok(route_uri) = SipUri::parse(route_uri_str) {
-                    debug!("Moving Route header to Request-URI: {}", route_uri.as_str());
-
-                    // Update Request-URI
-                    crate::ProxyHelpers::set_request_uri(request, route_uri.clone());
-
-                    // Remove the last Route header
-                    let mut filtered = Vec::new();
-                    let mut removed = false;
-                    for header in request.headers().clone().into_iter().rev() {
-                        if header.name().eq_ignore_ascii_case("Route") && !removed {
-                            removed = true;
-                            continue;
-                        }
-                        filtered.push(header);
-                    }
-                    filtered.reverse();
-                    *request.headers_mut() = sip_core::Headers::from_vec(filtered)
-                        .expect("route header list should be within limits");
-
-                    return Ok(Some(route_uri));
-                }
+            // Take the last Route header value
+            if let Some(route_uri) = take_route(request.headers_mut(), true)
+                .and_then(|route| route.uri().as_sip().cloned())
+            {
+                debug!("Moving Route header to Request-URI: {}", route_uri.as_str());
+
+                // Update Request-URI
+                crate::ProxyHelpers::set_request_uri(request, route_uri.clone());
+
+                return Ok(Some(route_uri));
             }
         }
 
@@ -369,9 +357,12 @@ impl RouteProcessor {
     pub fn get_next_hop(request: &Request) -> Result<SipUri> {
         // Check for Route headers
         if let Some(route) = request.headers().get("Route") {
-            // Extract URI from Route header
-            let uri_str = route.trim_matches(|c| c == '<' || c == '>');
-            SipUri::parse(uri_str).map_err(|_| anyhow!("Invalid Route header URI"))
+            // Use first Route header
+            let first = crate::split_outside_quotes(route, ',')[0];
+            RouteHeader::parse(first)
+                .ok()
+                .and_then(|route| route.uri().as_sip().cloned())
+                .ok_or_else(|| anyhow!("Invalid Route header URI"))
         } else {
             // Use Request-URI
             request
-- 
2.43.0


From c3d1a048edc6a3fb897b7ce16cfb52861200f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 084/132] fix: a Via parameter in quotes does not stand for the
 branch of a request

---
 crates/sip-parse/src/lib.rs | 47 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 03fba72..a4d04ec 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -68,16 +68,8 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
         return None;
     }
     if let Some(via) = headers.get("Via") {
-        if let Some(branch) = via
-            .split(';')
-            .find_map(|p| p.trim().strip_prefix("branch="))
-        {
-            // The field may list several Via values (RFC 3261 §7.3.1); only the
-            // topmost one identifies the transaction.
-            let branch = branch.split(',').next().unwrap_or(branch);
-            if !is_valid_branch(branch.trim()) {
-                return None;
-            }
+        if topmost_branch(via).is_some_and(|branch| !is_valid_branch(branch.trim())) {
+            return None;
         }
     }
     let body = extract_body(body_bytes, &headers)?;
@@ -88,6 +80,29 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
     Request::new(RequestLine::new(method, uri), headers, body).ok()
 }
 
+/// Splits at `separator` where it stands outside quotes.
+fn split_unquoted(value: &str, separator: char) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    let mut escaped = false;
+    value.split(move |c: char| {
+        if escaped {
+            escaped = false;
+        } else if quoted && c == '\\' {
+            escaped = true;
+        } else if c == '"' {
+            quoted = !quoted;
+        }
+        !quoted && c == separator
+    })
+}
+
+/// Returns the branch parameter of a Via field. The field may list several
+/// values (RFC 3261 §7.3.1); only the topmost identifies the transaction.
+fn topmost_branch(via: &str) -> Option<&str> {
+    let topmost = split_unquoted(via, ',').next()?;
+    split_unquoted(topmost, ';').find_map(|param| param.trim().strip_prefix("branch="))
+}
+
 /// Parses a SIP request with strict Content-Length handling and explicit size checks.
 pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Option<Request> {
     if datagram.len() > max_size {
@@ -106,16 +121,8 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
         return None;
     }
     if let Some(via) = headers.get("Via") {
-        if let Some(branch) = via
-            .split(';')
-            .find_map(|p| p.trim().strip_prefix("branch="))
-        {
-            // The field may list several Via values (RFC 3261 §7.3.1); only the
-            // topmost one identifies the transaction.
-            let branch = branch.split(',').next().unwrap_or(branch);
-            if !is_valid_branch(branch.trim()) {
-                return None;
-            }
+        if topmost_branch(via).is_some_and(|branch| !is_valid_branch(branch.trim())) {
+            return None;
         }
     }
 
-- 
2.43.0


From cabf53be9543538fad6b487379a73c6cae1f9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 085/132] fix: a CANCEL's new branch is not put inside a quoted
 Via parameter

---
 crates/sip-proxy/src/cancel_ack.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 5b3016a..7cf62fe 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -71,8 +71,10 @@ impl CancelForwarder {
             .next()
             .map(str::to_string);
         if let Some(via_value) = top {
-            let mut parts: Vec<String> =
-                via_value.split(';').map(|s| s.trim().to_string()).collect();
+            let mut parts: Vec<String> = crate::split_outside_quotes(&via_value, ';')
+                .into_iter()
+                .map(|s| s.trim().to_string())
+                .collect();
 
             let mut branch_updated = false;
             for part in parts.iter_mut() {
-- 
2.43.0


From 5d81423eeed663947ee224ad6818d25150c2563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 086/132] fix: an anonymised Contact does not keep the other
 addresses on its line

---
 crates/sip-core/src/privacy.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/privacy.rs b/crates/sip-core/src/privacy.rs
index ba0eeb6..dea4e49 100644
--- a/crates/sip-core/src/privacy.rs
+++ b/crates/sip-core/src/privacy.rs
@@ -451,6 +451,7 @@ fn split_header_params(value: &str) -> (&str, &str) {
     let mut in_quotes = false;
     let mut in_angle = false;
     let mut escape = false;
+    let mut params_start = None;
 
     for (idx, ch) in value.char_indices() {
         if escape {
@@ -472,13 +473,22 @@ fn split_header_params(value: &str) -> (&str, &str) {
                 in_angle = false;
             }
             ';' if !in_quotes && !in_angle => {
-                return (&value[..idx], &value[idx..]);
+                params_start.get_or_insert(idx);
+            }
+            ',' if !in_quotes && !in_angle => {
+                // A further address follows: its identity is not a parameter
+                // of this one.
+                let start = params_start.unwrap_or(idx);
+                return (&value[..start], &value[start..idx]);
             }
             _ => {}
         }
     }
 
-    (value, "")
+    match params_start {
+        Some(start) => (&value[..start], &value[start..]),
+        None => (value, ""),
+    }
 }
 
 /// Checks if privacy enforcement is required.
-- 
2.43.0


From 20c3d124ce82d5f920e4fb310a79f66c9d405209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 087/132] fix: a backslash in a string capability does not
 escape the closing quote

---
 crates/sip-core/src/capabilities.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 89bdcad..c77b96e 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -431,7 +431,10 @@ impl FeatureValue {
                 }
                 Ok(Some(SmolStr::new(format!("\"{}\"", list.join(",")))))
             }
-            FeatureValue::String(s) => Ok(Some(SmolStr::new(format!("\"{}\"", s)))),
+            FeatureValue::String(s) => Ok(Some(SmolStr::new(format!(
+                "\"{}\"",
+                s.replace('\\', "\\\\")
+            )))),
             FeatureValue::Numeric(n) => Ok(Some(SmolStr::new(n.to_string()))),
         }
     }
@@ -462,8 +465,8 @@ impl FeatureValue {
                     if v.len() < 2 {
                         return Err(CapabilityError::InvalidQuoting);
                     }
-                    let unquoted = &v[1..v.len() - 1];
-                    return FeatureValue::new_string(SmolStr::new(unquoted));
+                    let unquoted = unescape_quoted(&v[1..v.len() - 1])?;
+                    return FeatureValue::new_string(unquoted);
                 }
 
                 // Numeric values
@@ -490,6 +493,20 @@ fn is_valid_token(token: &str) -> bool {
         })
 }
 
+/// Resolves the quoted pairs inside a quoted string.
+fn unescape_quoted(inner: &str) -> Result<SmolStr, CapabilityError> {
+    let mut out = String::with_capacity(inner.len());
+    let mut chars = inner.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            out.push(chars.next().ok_or(CapabilityError::InvalidQuoting)?);
+        } else {
+            out.push(c);
+        }
+    }
+    Ok(SmolStr::new(out))
+}
+
 fn is_valid_string(value: &str) -> bool {
     !value.chars().any(|c| c.is_ascii_control() || c == '"')
 }
-- 
2.43.0


From ea0d3c04b582727ba98c1bf9e75372d21436aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 088/132] fix: message totals do not overflow

---
 crates/sip-core/src/message_waiting.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 4bf03f9..b23d4ac 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -189,12 +189,16 @@ impl MessageSummary {
 
     /// Returns the total number of new messages across all classes.
     pub fn total_new(&self) -> u32 {
-        self.messages.values().map(|c| c.new_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |total, c| total.saturating_add(c.new_count()))
     }
 
     /// Returns the total number of old messages across all classes.
     pub fn total_old(&self) -> u32 {
-        self.messages.values().map(|c| c.old_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |total, c| total.saturating_add(c.old_count()))
     }
 
     /// Returns true if any messages are urgent.
@@ -374,12 +378,12 @@ impl MessageCounts {
 
     /// Returns the total number of messages (new + old).
     pub fn total(&self) -> u32 {
-        self.new + self.old
+        self.new.saturating_add(self.old)
     }
 
     /// Returns the total number of urgent messages.
     pub fn total_urgent(&self) -> u32 {
-        self.urgent_new + self.urgent_old
+        self.urgent_new.saturating_add(self.urgent_old)
     }
 
     /// Returns true if there are any new messages.
-- 
2.43.0


From 1c1a60953e831c80d31ec0563b5c4a638743a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 089/132] fix: the headers of several messages in a summary
 stay apart

---
 crates/sip-core/src/message_waiting.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index b23d4ac..0e5f16e 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -239,7 +239,9 @@ impl fmt::Display for MessageSummary {
         }
 
         // Optional message headers
+        // A blank line goes before the headers of each message
         for msg_header in &self.message_headers {
+            writeln!(f)?;
             if let Some(to) = msg_header.to() {
                 writeln!(f, "To: {}", to)?;
             }
-- 
2.43.0


From 58bece7fdb78677c50dfb6013907871f37b62cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 090/132] fix: printing a message fragment with a binary body
 does not panic

---
 crates/sip-core/src/sipfrag.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/sip-core/src/sipfrag.rs b/crates/sip-core/src/sipfrag.rs
index ed89952..e1cd5e4 100644
--- a/crates/sip-core/src/sipfrag.rs
+++ b/crates/sip-core/src/sipfrag.rs
@@ -359,8 +359,7 @@ impl fmt::Display for SipFrag {
         // Body (if present, must include blank line separator)
         if !self.body.is_empty() {
             write!(f, "\r\n")?; // Blank line separates headers from body
-            let body = std::str::from_utf8(&self.body).map_err(|_| fmt::Error)?;
-            f.write_str(body)?;
+            f.write_str(&String::from_utf8_lossy(&self.body))?;
         }
 
         Ok(())
-- 
2.43.0


From 750eed903487528bbc59123ece26ee3fc6b8ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 091/132] fix: message counts are read with and without blanks
 between their parts

---
 crates/sip-core/src/message_waiting.rs | 40 +++++++++++---------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 0e5f16e..2eaaa2b 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -686,41 +686,33 @@ pub fn parse_message_summary(body: &str) -> Result<MessageSummary, MessageWaitin
 
 /// Parses message counts from format: "new/old (urgent_new/urgent_old)"
 fn parse_message_counts(s: &str) -> Option<MessageCounts> {
-    // Split on space to separate main counts from urgent counts
-    let parts: Vec<&str> = s.split_whitespace().collect();
-    if parts.is_empty() {
-        return None;
-    }
+    // RFC 3842 allows blanks around '/' and the parentheses, and none before
+    // the urgent counts: "2/8 (0/2)", "2/8(0/2)", "2 / 8 ( 0 / 2 )".
+    let (main, urgent) = match s.split_once('(') {
+        Some((main, urgent)) => (main, Some(urgent)),
+        None => (s, None),
+    };
 
     // Parse main counts (new/old)
-    let main_parts: Vec<&str> = parts[0].split('/').collect();
-    if main_parts.len() != 2 {
-        return None;
-    }
-
-    let new = main_parts[0].parse::<u32>().ok()?;
-    let old = main_parts[1].parse::<u32>().ok()?;
-
+    let (new, old) = parse_count_pair(main)?;
     let mut counts = MessageCounts::new(new, old);
 
     // Parse urgent counts if present
-    if parts.len() > 1 {
-        let urgent_str = parts[1].trim_matches(|c| c == '(' || c == ')');
-        let urgent_parts: Vec<&str> = urgent_str.split('/').collect();
-        if urgent_parts.len() == 2 {
-            if let (Ok(urgent_new), Ok(urgent_old)) = (
-                urgent_parts[0].parse::<u32>(),
-                urgent_parts[1].parse::<u32>(),
-            ) {
-                counts.urgent_new = urgent_new;
-                counts.urgent_old = urgent_old;
-            }
+    if let Some((urgent, _)) = urgent.and_then(|urgent| urgent.split_once(')')) {
+        if let Some((urgent_new, urgent_old)) = parse_count_pair(urgent) {
+            counts.urgent_new = urgent_new;
+            counts.urgent_old = urgent_old;
         }
     }
 
     Some(counts)
 }
 
+fn parse_count_pair(s: &str) -> Option<(u32, u32)> {
+    let (new, old) = s.split_once('/')?;
+    Some((new.trim().parse().ok()?, old.trim().parse().ok()?))
+}
+
 // Validation functions
 
 fn validate_account(account: &str) -> Result<(), MessageWaitingError> {
-- 
2.43.0


From 523220fe48049f3b398e40d52e49f19832611611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 092/132] fix: the body of a CPIM message is kept as it is, and
 a message without headers is read

---
 crates/sip-core/src/cpim.rs | 51 +++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 7539bcf..ad7d8d6 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -792,21 +792,24 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         });
     }
 
-    // Split into sections by blank lines (CRLF CRLF or LF LF)
-    let sections: Vec<&str> = if input.contains("\r\n\r\n") {
-        input.split("\r\n\r\n").collect()
-    } else {
-        input.split("\n\n").collect()
+    // Three sections, each ended by a blank line; what follows is the body.
+    let mut rest = input;
+    let mut next_section = || {
+        let (section, after) = split_section(rest)?;
+        rest = after;
+        Some(section)
     };
-
-    if sections.len() < 4 {
-        return Err(CpimError::ParseError(
-            "missing required cpim sections".to_string(),
-        ));
-    }
+    let (mime_section, headers_section, content_headers_section) =
+        match (next_section(), next_section(), next_section()) {
+            (Some(mime), Some(headers), Some(content)) => (mime, headers, content),
+            _ => {
+                return Err(CpimError::ParseError(
+                    "missing required cpim sections".to_string(),
+                ))
+            }
+        };
 
     // First section: MIME headers (should contain Content-type: Message/CPIM)
-    let mime_section = sections[0];
     if !mime_section.to_lowercase().contains("message/cpim") {
         return Err(CpimError::ParseError(
             "missing message/cpim MIME header".to_string(),
@@ -814,13 +817,9 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
     }
 
     // Second section: Message headers
-    let headers_section = sections[1];
     let headers = parse_headers(headers_section)?;
 
     // Third section: Content headers
-    let content_headers_section = sections[2];
-
-    // Parse content headers
     let mut content_type = SmolStr::new("text/plain");
     let mut content_headers = BTreeMap::new();
 
@@ -858,9 +857,8 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         }
     }
 
-    // Fourth section onwards: Body (join remaining sections in case body contains blank lines)
-    let body_str = sections[3..].join("\r\n\r\n");
-    let body = body_str.as_bytes().to_vec();
+    // The rest is the body, with whatever blank lines it contains
+    let body = rest.as_bytes().to_vec();
 
     if body.len() > MAX_BODY_SIZE {
         return Err(CpimError::BodyTooLarge {
@@ -877,6 +875,21 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
     })
 }
 
+/// Splits off the lines up to the next blank line (ended by CRLF or LF).
+///
+/// Returns those lines and what follows the blank line.
+fn split_section(input: &str) -> Option<(&str, &str)> {
+    let mut start = 0;
+    for line in input.split_inclusive('\n') {
+        let end = start + line.len();
+        if line == "\n" || line == "\r\n" {
+            return Some((&input[..start], &input[end..]));
+        }
+        start = end;
+    }
+    None
+}
+
 /// Parses CPIM headers from a string.
 fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, CpimError> {
     let mut headers = BTreeMap::new();
-- 
2.43.0


From cacb4b5937f5d4e40887f4d27c8689eaf69f2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 093/132] fix: parameters of a CPIM header are read where they
 are printed

---
 crates/sip-core/src/cpim.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index ad7d8d6..461dcb6 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -906,8 +906,17 @@ fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, Cpim
             .split_once(':')
             .ok_or_else(|| CpimError::ParseError("missing ':'".to_string()))?;
 
+        // Parameters follow the colon at once and end at a space (RFC 3862:
+        // "Subject:;lang=fr Bonjour"); "Subject;lang=fr: Bonjour" is read too.
+        let (params_after_colon, value) = match value.strip_prefix(';') {
+            Some(rest) => rest.split_once(' ').unwrap_or((rest, "")),
+            None => ("", value),
+        };
+
         // Parse header name and parameters
-        let mut parts = name_with_params.split(';');
+        let mut parts = name_with_params
+            .split(';')
+            .chain(params_after_colon.split(';'));
         let name = parts
             .next()
             .ok_or_else(|| CpimError::ParseError("missing header name".to_string()))?
-- 
2.43.0


From 49e44d48f17eada649c4d9850c68ab88550a5b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 094/132] fix: watcher information is read whatever its blanks,
 attribute values and empty elements

---
 crates/sip-core/src/lib.rs          |   1 +
 crates/sip-core/src/watcher_info.rs | 192 +++++++++-------------------
 crates/sip-core/src/xml_scan.rs     | 104 +++++++++++++++
 3 files changed, 164 insertions(+), 133 deletions(-)
 create mode 100644 crates/sip-core/src/xml_scan.rs

diff --git a/crates/sip-core/src/lib.rs b/crates/sip-core/src/lib.rs
index 5ca878c..62f617c 100644
--- a/crates/sip-core/src/lib.rs
+++ b/crates/sip-core/src/lib.rs
@@ -70,6 +70,7 @@ pub mod uri;
 pub mod version;
 pub mod via;
 pub mod watcher_info;
+mod xml_scan;
 
 pub use addr_headers::{FromHeader, NameAddrHeader, ToHeader};
 pub use auth::AuthorizationHeader;
diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index e275f38..1f954b1 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -19,6 +19,7 @@
 use smol_str::SmolStr;
 use std::fmt;
 
+use crate::xml_scan::{self, StartTag};
 use crate::Uri;
 
 // Security: Input size limits
@@ -703,68 +704,58 @@ fn xml_unescape(s: &str) -> Result<String, WatcherinfoError> {
 ///
 /// Note: This is a basic parser. Production use should use a proper XML parser library.
 pub fn parse_watcherinfo(xml: &str) -> Result<WatcherinfoDocument, WatcherinfoError> {
-    let version = extract_attribute(xml, "<watcherinfo", "version")?
+    let root = start_tag(xml, 0, "watcherinfo")?
+        .ok_or_else(|| WatcherinfoError::XmlParseError("missing watcherinfo".to_string()))?;
+    let version = extract_attribute(&root, "version")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing version attribute".to_string()))?
         .parse::<u32>()
         .map_err(|_| WatcherinfoError::XmlParseError("invalid version number".to_string()))?;
 
-    let state = extract_attribute(xml, "<watcherinfo", "state")?
+    let state = extract_attribute(&root, "state")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing state attribute".to_string()))?;
 
     let mut doc = WatcherinfoDocument::new(version, state)?;
 
-    let mut pos = 0;
-    while let Some(list_start) = xml[pos..].find("<watcher-list") {
-        let abs_start = pos + list_start;
-        let list_end = xml[abs_start..]
-            .find("</watcher-list>")
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unclosed watcher-list".to_string()))?
-            + abs_start
-            + 15;
-        let list_xml = &xml[abs_start..list_end];
-
-        let list = parse_watcher_list(list_xml)?;
+    let mut pos = root.end;
+    while let Some(tag) = start_tag(xml, pos, "watcher-list")? {
+        let (content, end) = element_content(xml, &tag, "watcher-list")?;
+
+        let list = parse_watcher_list(&tag, content)?;
         doc.add_watcher_list(list)?;
 
-        pos = list_end;
+        pos = end;
     }
 
     Ok(doc)
 }
 
-fn parse_watcher_list(xml: &str) -> Result<WatcherList, WatcherinfoError> {
-    let resource = extract_attribute(xml, "<watcher-list", "resource")?
+fn parse_watcher_list(tag: &StartTag<'_>, content: &str) -> Result<WatcherList, WatcherinfoError> {
+    let resource = extract_attribute(tag, "resource")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing resource".to_string()))?;
-    let package = extract_attribute(xml, "<watcher-list", "package")?
+    let package = extract_attribute(tag, "package")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing package".to_string()))?;
 
     let mut list = WatcherList::new(resource, package)?;
 
     let mut pos = 0;
-    while let Some(watcher_start) = xml[pos..].find("<watcher ") {
-        let abs_start = pos + watcher_start;
-        let watcher_end = xml[abs_start..]
-            .find("</watcher>")
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unclosed watcher".to_string()))?
-            + abs_start
-            + 10;
-        let watcher_xml = &xml[abs_start..watcher_end];
-
-        let watcher = parse_watcher(watcher_xml)?;
+    while let Some(tag) = start_tag(content, pos, "watcher")? {
+        let (uri, end) = element_content(content, &tag, "watcher")?;
+
+        let watcher = parse_watcher(&tag, uri)?;
         list.add_watcher(watcher)?;
 
-        pos = watcher_end;
+        pos = end;
     }
 
     Ok(list)
 }
 
-fn parse_watcher(xml: &str) -> Result<Watcher, WatcherinfoError> {
-    let id = extract_attribute(xml, "<watcher", "id")?
+fn parse_watcher(tag: &StartTag<'_>, content: &str) -> Result<Watcher, WatcherinfoError> {
+    let id = extract_attribute(tag, "id")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing id".to_string()))?;
-    let status_str = extract_attribute(xml, "<watcher", "status")?
+    let status_str = extract_attribute(tag, "status")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing status".to_string()))?;
-    let event_str = extract_attribute(xml, "<watcher", "event")?
+    let event_str = extract_attribute(tag, "event")?
         .ok_or_else(|| WatcherinfoError::XmlParseError("missing event".to_string()))?;
 
     let status = WatcherStatus::parse(&status_str).ok_or_else(|| {
@@ -775,128 +766,63 @@ fn parse_watcher(xml: &str) -> Result<Watcher, WatcherinfoError> {
 
     let mut watcher = Watcher::new(id, status, event)?;
 
-    if let Some(display_name) = extract_attribute(xml, "<watcher", "display-name")? {
+    if let Some(display_name) = extract_attribute(tag, "display-name")? {
         watcher = watcher.with_display_name(display_name)?;
     }
 
-    if let Some(expiration) = extract_attribute(xml, "<watcher", "expiration")? {
+    if let Some(expiration) = extract_attribute(tag, "expiration")? {
         if let Ok(exp) = expiration.parse::<u32>() {
             watcher = watcher.with_expiration(exp);
         }
     }
 
-    if let Some(duration) = extract_attribute(xml, "<watcher", "duration-subscribed")? {
+    if let Some(duration) = extract_attribute(tag, "duration-subscribed")? {
         if let Ok(dur) = duration.parse::<u32>() {
             watcher = watcher.with_duration_subscribed(dur);
         }
     }
 
-    if let Some(content_start) = xml.find('>') {
-        // Search for the closing tag only *after* the opening tag's '>'. If the
-        // opening <watcher ...> tag is unclosed, the first '>' found is the one
-        // inside </watcher>, which would make content_end < content_start and
-        // panic on the slice.
-        if let Some(content_end) = xml[content_start + 1..]
-            .find("</watcher>")
-            .map(|rel| content_start + 1 + rel)
-        {
-            let uri = xml_unescape(xml[content_start + 1..content_end].trim())?;
-            if !uri.is_empty() {
-                watcher = watcher.with_uri(uri)?;
-            }
-        }
+    // The element content is the watcher URI
+    let uri = xml_unescape(content.trim())?;
+    if !uri.is_empty() {
+        watcher = watcher.with_uri(uri)?;
     }
 
     Ok(watcher)
 }
 
+/// Finds the next start tag of an element; one that is not terminated is an error.
+fn start_tag<'a>(
+    xml: &'a str,
+    from: usize,
+    name: &str,
+) -> Result<Option<StartTag<'a>>, WatcherinfoError> {
+    xml_scan::find_start_tag(xml, from, name)
+        .map_err(|_| WatcherinfoError::XmlParseError("unterminated tag".to_string()))
+}
+
+/// Returns the content of the element a start tag opens, and where it ends.
+fn element_content<'a>(
+    xml: &'a str,
+    tag: &StartTag<'_>,
+    name: &str,
+) -> Result<(&'a str, usize), WatcherinfoError> {
+    if tag.self_closing {
+        return Ok(("", tag.end));
+    }
+    let (content_end, end) = xml_scan::find_end_tag(xml, tag.end, name)
+        .ok_or_else(|| WatcherinfoError::XmlParseError(format!("unclosed {}", name)))?;
+    Ok((&xml[tag.end..content_end], end))
+}
+
 fn extract_attribute(
-    xml: &str,
-    tag_name: &str,
+    tag: &StartTag<'_>,
     attr_name: &str,
 ) -> Result<Option<String>, WatcherinfoError> {
-    let tag_start = match xml.find(tag_name) {
-        Some(start) => start,
-        None => return Ok(None),
-    };
-    let tag_content = &xml[tag_start..];
-    let tag_end = tag_content
-        .find('>')
-        .ok_or_else(|| WatcherinfoError::XmlParseError("unterminated tag".to_string()))?;
-    let tag_str = &tag_content[..tag_end];
-
-    let mut search_idx = 0;
-    while let Some(found) = tag_str[search_idx..].find(attr_name) {
-        let attr_start = search_idx + found;
-        let before_ok = attr_start == 0
-            || tag_str[..attr_start]
-                .chars()
-                .last()
-                .map(|c| c.is_whitespace() || c == '<')
-                .unwrap_or(true);
-        let after_idx = attr_start + attr_name.len();
-        let after_char = tag_str[after_idx..].chars().next();
-        if !before_ok || matches!(after_char, Some(c) if !c.is_whitespace() && c != '=') {
-            search_idx = attr_start + 1;
-            continue;
-        }
-
-        let mut idx = after_idx;
-        while idx < tag_str.len() {
-            let ch = tag_str[idx..].chars().next().ok_or_else(|| {
-                WatcherinfoError::XmlParseError(
-                    "invalid UTF-8 sequence in attribute parsing".to_string(),
-                )
-            })?;
-            if !ch.is_whitespace() {
-                break;
-            }
-            idx += ch.len_utf8();
-        }
-
-        if idx >= tag_str.len() || !tag_str[idx..].starts_with('=') {
-            search_idx = attr_start + 1;
-            continue;
-        }
-        idx += 1;
-
-        while idx < tag_str.len() {
-            let ch = tag_str[idx..].chars().next().ok_or_else(|| {
-                WatcherinfoError::XmlParseError(
-                    "invalid UTF-8 sequence in attribute parsing".to_string(),
-                )
-            })?;
-            if !ch.is_whitespace() {
-                break;
-            }
-            idx += ch.len_utf8();
-        }
-
-        if idx >= tag_str.len() {
-            return Err(WatcherinfoError::XmlParseError(
-                "unterminated attribute".to_string(),
-            ));
-        }
-
-        let quote = tag_str[idx..].chars().next().ok_or_else(|| {
-            WatcherinfoError::XmlParseError("invalid UTF-8 sequence in quote character".to_string())
-        })?;
-        if quote != '"' && quote != '\'' {
-            return Err(WatcherinfoError::XmlParseError(
-                "unterminated attribute".to_string(),
-            ));
-        }
-        idx += quote.len_utf8();
-
-        let rest = &tag_str[idx..];
-        let end_rel = rest
-            .find(quote)
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unterminated attribute".to_string()))?;
-        let value = &rest[..end_rel];
-        return xml_unescape(value).map(Some);
-    }
-
-    Ok(None)
+    tag.attribute(attr_name)
+        .map_err(|_| WatcherinfoError::XmlParseError("unterminated attribute".to_string()))?
+        .map(xml_unescape)
+        .transpose()
 }
 
 #[cfg(test)]
diff --git a/crates/sip-core/src/xml_scan.rs b/crates/sip-core/src/xml_scan.rs
new file mode 100644
index 0000000..e7aba16
--- /dev/null
+++ b/crates/sip-core/src/xml_scan.rs
@@ -0,0 +1,104 @@
+// siphon-rs - The Siphon SIP Stack
+// Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
+// SPDX-License-Identifier: Apache-2.0 OR MIT
+
+//! Start tags and attributes of the small XML documents carried in NOTIFY bodies.
+
+/// A tag that is not terminated, or whose attributes are not well formed.
+#[derive(Debug, Clone, Copy)]
+pub(crate) struct Malformed;
+
+/// A start tag found in a document.
+#[derive(Debug, Clone, Copy)]
+pub(crate) struct StartTag<'a> {
+    /// Offset of its `<`.
+    pub start: usize,
+    /// Offset just after its `>`.
+    pub end: usize,
+    /// Whether it also closes its element (`<note/>`).
+    pub self_closing: bool,
+    attributes: &'a str,
+}
+
+/// Finds the next start tag of an element, at or after an offset.
+///
+/// A `>` inside a quoted attribute value does not end the tag.
+pub(crate) fn find_start_tag<'a>(
+    xml: &'a str,
+    from: usize,
+    name: &str,
+) -> Result<Option<StartTag<'a>>, Malformed> {
+    let mut pos = from;
+    while let Some(offset) = xml[pos..].find('<') {
+        let start = pos + offset;
+        let name_start = start + 1;
+        pos = name_start;
+        let Some(after) = xml[name_start..].strip_prefix(name) else {
+            continue;
+        };
+        if !after.starts_with(|c: char| c.is_ascii_whitespace() || c == '>' || c == '/') {
+            continue;
+        }
+
+        let attributes_start = name_start + name.len();
+        let mut quote = None;
+        for (offset, c) in after.char_indices() {
+            match (quote, c) {
+                (None, '"' | '\'') => quote = Some(c),
+                (Some(q), c) if c == q => quote = None,
+                (None, '>') => {
+                    let attributes = &after[..offset];
+                    let self_closing = attributes.ends_with('/');
+                    return Ok(Some(StartTag {
+                        start,
+                        end: attributes_start + offset + 1,
+                        self_closing,
+                        attributes: attributes.strip_suffix('/').unwrap_or(attributes),
+                    }));
+                }
+                _ => {}
+            }
+        }
+        return Err(Malformed);
+    }
+    Ok(None)
+}
+
+impl<'a> StartTag<'a> {
+    /// Returns the value of an attribute, still escaped.
+    pub(crate) fn attribute(&self, name: &str) -> Result<Option<&'a str>, Malformed> {
+        let mut rest = self.attributes.trim_start();
+        while !rest.is_empty() {
+            let (attr_name, after) = rest.split_once('=').ok_or(Malformed)?;
+            let after = after.trim_start();
+            let quote = after
+                .chars()
+                .next()
+                .filter(|c| matches!(c, '"' | '\''))
+                .ok_or(Malformed)?;
+            let (value, after) = after[1..].split_once(quote).ok_or(Malformed)?;
+            if attr_name.trim_end() == name {
+                return Ok(Some(value));
+            }
+            rest = after.trim_start();
+        }
+        Ok(None)
+    }
+}
+
+/// Finds the end tag of an element, at or after an offset: its first byte and
+/// the one after it.
+pub(crate) fn find_end_tag(xml: &str, from: usize, name: &str) -> Option<(usize, usize)> {
+    let mut pos = from;
+    loop {
+        let start = pos + xml[pos..].find("</")?;
+        pos = start + 2;
+        let Some(after) = xml[pos..].strip_prefix(name) else {
+            continue;
+        };
+        if after.trim_start().starts_with('>') {
+            let end = xml.len() - after.trim_start().len() + 1;
+            return Some((start, end));
+        }
+    }
+}
-- 
2.43.0


From 62e98aea4909313bad6ec5f7994a6e0609745e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 095/132] fix: presence documents are read whatever their
 blanks, attributes and empty elements

---
 crates/sip-core/src/presence.rs | 156 +++++++++++++++-----------------
 1 file changed, 71 insertions(+), 85 deletions(-)

diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index 73c99db..8bdb1a1 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -12,6 +12,7 @@
 /// # Security
 ///
 /// All types validate input to prevent XML injection attacks and DoS.
+use crate::xml_scan::{self, StartTag};
 use smol_str::SmolStr;
 use std::fmt;
 
@@ -451,7 +452,9 @@ pub fn parse_pidf(xml: &str) -> Result<PresenceDocument, PresenceError> {
     }
 
     // Very basic parsing - a real implementation should use an XML parser
-    let entity = extract_attribute(xml, "<presence", "entity")
+    let root = start_tag(xml, 0, "presence")?
+        .ok_or_else(|| PresenceError::ParseError("missing presence element".to_string()))?;
+    let entity = extract_attribute(&root, "entity")?
         .ok_or_else(|| PresenceError::ParseError("missing entity attribute".to_string()))?;
 
     let entity = xml_unescape(&entity);
@@ -459,21 +462,15 @@ pub fn parse_pidf(xml: &str) -> Result<PresenceDocument, PresenceError> {
 
     // Extract tuples
     let mut tuple_ranges = Vec::new();
-    let mut pos = 0;
-    while let Some(tuple_start) = xml[pos..].find("<tuple") {
-        let abs_start = pos + tuple_start;
-        let tuple_end = xml[abs_start..]
-            .find("</tuple>")
-            .ok_or_else(|| PresenceError::ParseError("unclosed tuple".to_string()))?
-            + abs_start
-            + 8;
-        let tuple_xml = &xml[abs_start..tuple_end];
-
-        let tuple = parse_tuple(tuple_xml)?;
+    let mut pos = root.end;
+    while let Some(tag) = start_tag(xml, pos, "tuple")? {
+        let (content, end) = element_content(xml, &tag, "tuple")?;
+
+        let tuple = parse_tuple(&tag, content)?;
         doc.add_tuple(tuple)?;
-        tuple_ranges.push((abs_start, tuple_end));
+        tuple_ranges.push((tag.start, end));
 
-        pos = tuple_end;
+        pos = end;
     }
 
     // Extract document-level notes (outside tuples)
@@ -483,96 +480,93 @@ pub fn parse_pidf(xml: &str) -> Result<PresenceDocument, PresenceError> {
 }
 
 /// Parses a single tuple from XML.
-fn parse_tuple(xml: &str) -> Result<Tuple, PresenceError> {
-    let id = extract_attribute(xml, "<tuple", "id")
+fn parse_tuple(tag: &StartTag<'_>, xml: &str) -> Result<Tuple, PresenceError> {
+    let id = extract_attribute(tag, "id")?
         .ok_or_else(|| PresenceError::ParseError("missing tuple id".to_string()))?;
 
     let id = xml_unescape(&id);
     let mut tuple = Tuple::new(id)?;
 
     // Extract status
-    if let Some(basic_start) = xml.find("<basic>") {
-        // Search for the closing tag only *after* the opening tag, so a
-        // </basic> that precedes <basic> cannot make basic_end < basic_start+7
-        // and panic on the slice.
-        if let Some(basic_end) = xml[basic_start + 7..]
-            .find("</basic>")
-            .map(|rel| basic_start + 7 + rel)
-        {
-            let status_str = &xml[basic_start + 7..basic_end].trim();
-            tuple.status =
-                Some(BasicStatus::parse(status_str).ok_or_else(|| {
-                    PresenceError::ParseError("invalid basic status".to_string())
-                })?);
-        }
+    if let Some((basic, _)) = next_element(xml, 0, "basic")? {
+        tuple.status = Some(
+            BasicStatus::parse(basic)
+                .ok_or_else(|| PresenceError::ParseError("invalid basic status".to_string()))?,
+        );
     }
 
     // Extract contact
-    if let Some((contact, end_idx)) = extract_element_with_range(xml, "contact") {
-        if has_duplicate_element(xml, "contact", end_idx) {
+    if let Some((contact, end)) = next_element(xml, 0, "contact")? {
+        if start_tag(xml, end, "contact")?.is_some() {
             return Err(PresenceError::ParseError(
                 "multiple contact elements".to_string(),
             ));
         }
-        let contact = xml_unescape(&contact);
-        tuple = tuple.with_contact(contact)?;
+        tuple = tuple.with_contact(xml_unescape(contact))?;
     }
 
     // Extract notes
     let mut pos = 0;
-    while let Some(note_start) = xml[pos..].find("<note>") {
-        let abs_start = pos + note_start;
-        if let Some(note_end) = xml[abs_start..].find("</note>") {
-            let note = &xml[abs_start + 6..abs_start + note_end].trim();
-            let note = xml_unescape(note);
-            tuple = tuple.with_note(note)?;
-            pos = abs_start + note_end + 7;
-        } else {
-            break;
-        }
+    while let Some((note, end)) = next_element(xml, pos, "note")? {
+        tuple = tuple.with_note(xml_unescape(note))?;
+        pos = end;
     }
 
     // Extract timestamp
-    if let Some((timestamp, end_idx)) = extract_element_with_range(xml, "timestamp") {
-        if has_duplicate_element(xml, "timestamp", end_idx) {
+    if let Some((timestamp, end)) = next_element(xml, 0, "timestamp")? {
+        if start_tag(xml, end, "timestamp")?.is_some() {
             return Err(PresenceError::ParseError(
                 "multiple timestamp elements".to_string(),
             ));
         }
-        let timestamp = xml_unescape(&timestamp);
-        tuple = tuple.with_timestamp(timestamp)?;
+        tuple = tuple.with_timestamp(xml_unescape(timestamp))?;
     }
 
     Ok(tuple)
 }
 
-/// Extracts an XML attribute value.
-fn extract_attribute(xml: &str, tag_name: &str, attr_name: &str) -> Option<String> {
-    let tag_start = xml.find(tag_name)?;
-    let tag_content = &xml[tag_start..];
-    let tag_end = tag_content.find('>')?;
-    let tag_str = &tag_content[..tag_end];
-
-    let attr_start = tag_str.find(&format!("{}=\"", attr_name))?;
-    let value_start = attr_start + attr_name.len() + 2;
-    let value_end = tag_str[value_start..].find('"')?;
-    Some(tag_str[value_start..value_start + value_end].to_string())
+/// Finds the next start tag of an element; one that is not terminated is an error.
+fn start_tag<'a>(
+    xml: &'a str,
+    from: usize,
+    name: &str,
+) -> Result<Option<StartTag<'a>>, PresenceError> {
+    xml_scan::find_start_tag(xml, from, name)
+        .map_err(|_| PresenceError::ParseError("unterminated tag".to_string()))
 }
 
-fn extract_element_with_range(xml: &str, element_name: &str) -> Option<(String, usize)> {
-    let start_tag = format!("<{}>", element_name);
-    let end_tag = format!("</{}>", element_name);
-
-    let content_start = xml.find(&start_tag)? + start_tag.len();
-    let content_end = xml[content_start..].find(&end_tag)? + content_start;
-    let end_idx = content_end + end_tag.len();
+/// Returns the content of the element a start tag opens, and where it ends.
+fn element_content<'a>(
+    xml: &'a str,
+    tag: &StartTag<'_>,
+    name: &str,
+) -> Result<(&'a str, usize), PresenceError> {
+    if tag.self_closing {
+        return Ok(("", tag.end));
+    }
+    let (content_end, end) = xml_scan::find_end_tag(xml, tag.end, name)
+        .ok_or_else(|| PresenceError::ParseError(format!("unclosed {} element", name)))?;
+    Ok((&xml[tag.end..content_end], end))
+}
 
-    Some((xml[content_start..content_end].trim().to_string(), end_idx))
+/// Returns the trimmed content of the next such element, and where it ends.
+fn next_element<'a>(
+    xml: &'a str,
+    from: usize,
+    name: &str,
+) -> Result<Option<(&'a str, usize)>, PresenceError> {
+    let Some(tag) = start_tag(xml, from, name)? else {
+        return Ok(None);
+    };
+    let (content, end) = element_content(xml, &tag, name)?;
+    Ok(Some((content.trim(), end)))
 }
 
-fn has_duplicate_element(xml: &str, element_name: &str, after_idx: usize) -> bool {
-    let start_tag = format!("<{}>", element_name);
-    xml[after_idx..].contains(&start_tag)
+fn extract_attribute(tag: &StartTag<'_>, attr_name: &str) -> Result<Option<String>, PresenceError> {
+    Ok(tag
+        .attribute(attr_name)
+        .map_err(|_| PresenceError::ParseError("malformed attributes".to_string()))?
+        .map(str::to_string))
 }
 
 fn extract_document_notes(
@@ -581,26 +575,18 @@ fn extract_document_notes(
     doc: &mut PresenceDocument,
 ) -> Result<(), PresenceError> {
     let mut pos = 0;
-    while let Some(note_start) = xml[pos..].find("<note>") {
-        let abs_start = pos + note_start;
-        if tuple_ranges
+    while let Some(tag) = start_tag(xml, pos, "note")? {
+        if let Some((_, tuple_end)) = tuple_ranges
             .iter()
-            .any(|(start, end)| abs_start >= *start && abs_start < *end)
+            .find(|(start, end)| tag.start >= *start && tag.start < *end)
         {
-            pos = abs_start + 6;
+            pos = *tuple_end;
             continue;
         }
 
-        if let Some(note_end) = xml[abs_start..].find("</note>") {
-            let note = &xml[abs_start + 6..abs_start + note_end].trim();
-            let note = xml_unescape(note);
-            doc.add_note(note)?;
-            pos = abs_start + note_end + 7;
-        } else {
-            return Err(PresenceError::ParseError(
-                "unclosed note element".to_string(),
-            ));
-        }
+        let (note, end) = element_content(xml, &tag, "note")?;
+        doc.add_note(xml_unescape(note.trim()))?;
+        pos = end;
     }
     Ok(())
 }
-- 
2.43.0


From 21a3701b359e89f376d81ec501aa47e6aba25057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 096/132] fix: character references in a presence document are
 decoded

---
 crates/sip-core/src/presence.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index 8bdb1a1..ee49baa 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -425,7 +425,10 @@ fn xml_unescape(s: &str) -> String {
                 "amp" => out.push('&'),
                 "quot" => out.push('"'),
                 "apos" => out.push('\''),
-                _ => out.push_str(&s[amp..=end]),
+                _ => match character_reference(entity) {
+                    Some(c) => out.push(c),
+                    None => out.push_str(&s[amp..=end]),
+                },
             }
             i = end + 1;
         } else {
@@ -437,6 +440,16 @@ fn xml_unescape(s: &str) -> String {
     out
 }
 
+/// Decodes a numeric character reference: `#233` or `#xE9`.
+fn character_reference(entity: &str) -> Option<char> {
+    let digits = entity.strip_prefix('#')?;
+    let code = match digits.strip_prefix('x') {
+        Some(hex) => u32::from_str_radix(hex, 16),
+        None => digits.parse(),
+    };
+    char::from_u32(code.ok()?)
+}
+
 /// Parses a PIDF presence document from XML.
 ///
 /// # Security
@@ -490,7 +503,7 @@ fn parse_tuple(tag: &StartTag<'_>, xml: &str) -> Result<Tuple, PresenceError> {
     // Extract status
     if let Some((basic, _)) = next_element(xml, 0, "basic")? {
         tuple.status = Some(
-            BasicStatus::parse(basic)
+            BasicStatus::parse(&xml_unescape(basic))
                 .ok_or_else(|| PresenceError::ParseError("invalid basic status".to_string()))?,
         );
     }
-- 
2.43.0


From a6a95968ab13168c29dd4a998c3738d30fed0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 097/132] fix: a tel URI parameter is one parameter whatever
 the letter case of its name

---
 crates/sip-core/src/tel_uri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 9524224..ab49a3d 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -410,7 +410,7 @@ impl TelUri {
                 validate_parameter_name(key)?;
                 validate_parameter_value(value)?;
 
-                let key_smol = SmolStr::new(key);
+                let key_smol = SmolStr::new(key.to_ascii_lowercase());
                 let value_smol = SmolStr::new(value);
 
                 // Special handling for phone-context
@@ -422,7 +422,7 @@ impl TelUri {
                 parameters.insert(key_smol, Some(value_smol));
             } else {
                 validate_parameter_name(param)?;
-                parameters.insert(SmolStr::new(param), None);
+                parameters.insert(SmolStr::new(param.to_ascii_lowercase()), None);
             }
         }
 
@@ -482,7 +482,8 @@ impl TelUri {
         key: impl Into<SmolStr>,
         value: Option<impl Into<SmolStr>>,
     ) -> Result<Self, TelUriError> {
-        let key = key.into();
+        // Parameter names are case-insensitive (RFC 3966 §3).
+        let key = SmolStr::new(key.into().to_ascii_lowercase());
         let key_str = key.as_str();
         let exists = self.parameters.contains_key(&key);
         if !exists && self.parameters.len() >= MAX_PARAMETERS {
-- 
2.43.0


From 9226b4be9e068e6705e02d7870d469212243da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 098/132] fix: a security mechanism parameter is one parameter
 whatever the letter case of its name

---
 crates/sip-core/src/security.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 33c1363..20eb713 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -204,7 +204,8 @@ impl SecurityEntry {
 
     /// Sets a parameter value with validation.
     pub fn set_param(&mut self, name: &str, value: Option<&str>) -> Result<(), SecurityError> {
-        if self.params.len() >= MAX_PARAMS_PER_ENTRY {
+        let key = SmolStr::new(name.to_ascii_lowercase());
+        if !self.params.contains_key(&key) && self.params.len() >= MAX_PARAMS_PER_ENTRY {
             return Err(SecurityError::TooManyItems {
                 field: "parameters",
                 max: MAX_PARAMS_PER_ENTRY,
@@ -217,8 +218,7 @@ impl SecurityEntry {
             validate_param_value(v)?;
         }
 
-        self.params
-            .insert(SmolStr::new(name), value.map(SmolStr::new));
+        self.params.insert(key, value.map(SmolStr::new));
         Ok(())
     }
 
-- 
2.43.0


From 02f53c9d62ba36b6f46ef3a9fc6f939e4e3d4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 099/132] fix: security mechanism names compare whatever their
 letter case

---
 crates/sip-core/src/security.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 20eb713..5b3e17a 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -155,12 +155,13 @@ impl SecurityMechanism {
     pub fn parse(s: &str) -> Result<Self, SecurityError> {
         validate_mechanism_name(s)?;
 
-        Ok(match s.to_lowercase().as_str() {
+        Ok(match s.to_ascii_lowercase().as_str() {
             "tls" => SecurityMechanism::Tls,
             "digest" => SecurityMechanism::Digest,
             "ipsec-ike" => SecurityMechanism::IpsecIke,
             "ipsec-man" => SecurityMechanism::IpsecMan,
-            _ => SecurityMechanism::Other(SmolStr::new(s)),
+            // Names are case-insensitive: other names compare equal as well.
+            other => SecurityMechanism::Other(SmolStr::new(other)),
         })
     }
 }
-- 
2.43.0


From 8049c7856d526bd32cc171f7e0f1c7d4516572fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 100/132] fix: test-kit scenarios answer the realm they are
 challenged with and address NOTIFY properly

---
 crates/sip-testkit/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-testkit/src/lib.rs b/crates/sip-testkit/src/lib.rs
index 12d4fc4..e7cde1c 100644
--- a/crates/sip-testkit/src/lib.rs
+++ b/crates/sip-testkit/src/lib.rs
@@ -356,7 +356,7 @@ pub fn build_notify_for_refer(
     headers
         .push(
             SmolStr::new("To"),
-            SmolStr::new(format!("<{}>;tag=subscriber", refer_to)),
+            SmolStr::new(format!("<{}>;tag=subscriber", refer_uri)),
         )
         .unwrap();
     headers
@@ -430,7 +430,7 @@ pub fn scenario_register_with_auth(
         .headers_mut()
         .push(
             SmolStr::new("Authorization"),
-            SmolStr::new("Digest username=\"alice\", realm=\"example.com\", nonce=\"abc123\", uri=\"sip:registrar.example.com\", response=\"deadbeef\""),
+            SmolStr::new(format!("Digest username=\"alice\", realm=\"{}\", nonce=\"abc123\", uri=\"sip:registrar.example.com\", response=\"deadbeef\"", realm)),
         )
         .unwrap();
     (first, challenge, retry)
-- 
2.43.0


From 868da77d2054a120c4206887d3af3599a07fb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 101/132] fix: the nonce limit holds exactly when challenges
 are issued concurrently

---
 crates/sip-auth/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index b6d834d..eefb806 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -42,7 +42,7 @@ use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::fmt::Write;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 use subtle::ConstantTimeEq;
 use tokio::{runtime::Handle, task};
@@ -577,6 +577,7 @@ pub struct NonceManager {
     ttl: Duration,
     max_nonces: usize,
     max_request_age: Duration,
+    insert_lock: Mutex<()>, // Makes room and inserts one nonce at a time, so the limit holds
 }
 
 impl NonceManager {
@@ -586,6 +587,7 @@ impl NonceManager {
             ttl,
             max_nonces: MAX_NONCE_COUNT,
             max_request_age: DEFAULT_MAX_REQUEST_AGE,
+            insert_lock: Mutex::new(()),
         }
     }
 
@@ -600,16 +602,16 @@ impl NonceManager {
     }
 
     pub fn generate(&self) -> Nonce {
+        let _guard = self.insert_lock.lock().unwrap_or_else(|e| e.into_inner());
+
         // If we're at capacity, run cleanup before generating new nonce
         if self.nonces.len() >= self.max_nonces {
             self.cleanup();
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                // Remove 10% of capacity, plus whatever concurrent callers
-                // inserted beyond the limit.
-                let excess = self.nonces.len().saturating_sub(self.max_nonces);
-                self.remove_oldest(excess + (self.max_nonces / 10).max(1));
+                // Remove 10% of capacity
+                self.remove_oldest((self.max_nonces / 10).max(1));
             }
         }
 
-- 
2.43.0


From 1b2d5a553c817b65d6191bd2253d95dd099860de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 102/132] fix: cleaning up terminated subscriptions leaves one
 that was just replaced by a live one

---
 crates/sip-dialog/src/lib.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 664cac3..8c50c4d 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1797,17 +1797,14 @@ impl SubscriptionManager {
 
     /// Removes all terminated subscriptions.
     pub fn cleanup_terminated(&self) -> usize {
-        let terminated: Vec<_> = self
-            .subscriptions
-            .iter()
-            .filter(|entry| entry.value().state == SubscriptionState::Terminated)
-            .map(|entry| entry.key().clone())
-            .collect();
-
-        let count = terminated.len();
-        for id in terminated {
-            self.subscriptions.remove(&id);
-        }
+        let mut count = 0;
+        self.subscriptions.retain(|_, subscription| {
+            let keep = subscription.state != SubscriptionState::Terminated;
+            if !keep {
+                count += 1;
+            }
+            keep
+        });
         count
     }
 }
-- 
2.43.0


From 8acff10b2c64bf43c06f0ac39e0d6affab533664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 103/132] fix: complete stream messages are lost when a
 malformed one follows in the same read

---
 crates/sip-transport/src/lib.rs | 36 ++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 238a940..8ad4452 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1599,7 +1599,8 @@ async fn spawn_tls_session(
                     Ok(frames) => {
                         // First complete message ⇒ a real SIP speaker; switch
                         // off the Slowloris window to the established timeout.
-                        if !frames.is_empty() {
+                        let handed_on = !frames.is_empty();
+                        if handed_on {
                             established = true;
                         }
                         for payload in frames {
@@ -1635,6 +1636,9 @@ async fn spawn_tls_session(
                                 break;
                             }
                         }
+                        if handed_on && framing_error(&mut buf, peer, TransportLabel::Tls) {
+                            break;
+                        }
                     }
                     Err(e) => {
                         warn!(
@@ -1808,7 +1812,8 @@ async fn spawn_stream_session<S>(
                     Ok(frames) => {
                         // First complete message ⇒ a real SIP speaker; switch
                         // off the Slowloris window to the established timeout.
-                        if !frames.is_empty() {
+                        let handed_on = !frames.is_empty();
+                        if handed_on {
                             established = true;
                         }
                         for payload in frames {
@@ -1848,6 +1853,9 @@ async fn spawn_stream_session<S>(
                                 break;
                             }
                         }
+                        if handed_on && framing_error(&mut buf, peer, transport.into()) {
+                            break;
+                        }
                     }
                     Err(e) => {
                         warn!(
@@ -1889,8 +1897,19 @@ async fn spawn_stream_session<S>(
 ///
 /// Enforces MAX_HEADER_SIZE and MAX_BODY_SIZE limits to prevent memory exhaustion attacks.
 /// Returns an error if limits are exceeded, causing the connection to be closed.
+///
+/// Complete messages in front of a malformed one are handed out first: which
+/// messages get through must not depend on how the peer's bytes were cut into
+/// segments. The malformed rest stays in `buf`, and the next call reports it.
 pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
     let mut frames = Vec::new();
+    match split_sip_frames(buf, &mut frames) {
+        Err(e) if frames.is_empty() => Err(e),
+        _ => Ok(frames),
+    }
+}
+
+fn split_sip_frames(buf: &mut BytesMut, frames: &mut Vec<Bytes>) -> Result<()> {
     loop {
         // Handle CRLF keep-alive pings (RFC 5626)
         consume_leading_crlf(buf);
@@ -1960,7 +1979,18 @@ pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
 
         frames.push(buf.split_to(needed).freeze());
     }
-    Ok(frames)
+    Ok(())
+}
+
+/// Whether what follows the messages just handed on is malformed, so that the
+/// connection has to end.
+fn framing_error(buf: &mut BytesMut, peer: SocketAddr, transport: TransportLabel) -> bool {
+    let Err(e) = drain_sip_frames(buf) else {
+        return false;
+    };
+    warn!(peer = %peer, error = %e, "SIP framing error, closing connection");
+    transport_metrics().on_error(transport, StageLabel::FramingError);
+    true
 }
 
 fn consume_leading_crlf(buf: &mut BytesMut) {
-- 
2.43.0


From 23d5ec54535678ac6fc8985a44fc0001abe3b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 104/132] fix: a Content-Length too large for 64 bits is
 ignored instead of refused

---
 crates/sip-parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a4d04ec..e3dafa1 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -503,7 +503,7 @@ fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLength
     // Parse to u64 first to detect overflow on 32-bit systems
     let value_u64 = trimmed
         .parse::<u64>()
-        .map_err(|_| ContentLengthError::Invalid)?;
+        .map_err(|_| ContentLengthError::Oversized)?;
 
     // Check if value fits in usize (prevents overflow on 32-bit)
     if value_u64 > usize::MAX as u64 {
-- 
2.43.0


From 79a557da77714d22147ce7390423a54ec30d6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 105/132] fix: responses get a second To tag, or a malformed
 tag panics, when the tag is written unusually

The server looked for the literal ";tag=" anywhere in the To header, so
";TAG=x" and "; tag=x" got a second tag, a quoted name containing
";tag=" got none, and reading the tag of a From header with non-ASCII
parameters sliced inside a character.
---
 crates/sip-uas/src/lib.rs | 47 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 955cfbb..6c3641b 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1446,14 +1446,7 @@ fn deterministic_counter() -> Option<u64> {
 
 /// Extracts tag parameter from From/To header value.
 fn extract_tag_param(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
-        let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
-        }
-    })
+    sip_dialog::extract_tag(value)
 }
 
 /// Builds a stable dialog key for PRACK tracking.
@@ -1485,6 +1478,33 @@ fn validate_dialog_request(request: &Request, dialog: &Dialog) -> Result<()> {
     Ok(())
 }
 
+/// Byte range of the `tag` header parameter, including the `;` before
+/// it. Quoted strings and the angle-bracketed URI are skipped: a
+/// `;tag=` in there is not the header's tag.
+fn tag_param_span(value: &str) -> Option<(usize, usize)> {
+    let mut semicolons = Vec::new();
+    let (mut in_quotes, mut escaped, mut in_uri) = (false, false, false);
+    for (idx, ch) in value.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
+            '"' if !in_uri => in_quotes = !in_quotes,
+            _ if in_quotes => {}
+            '<' => in_uri = true,
+            '>' => in_uri = false,
+            ';' if !in_uri => semicolons.push(idx),
+            _ => {}
+        }
+    }
+    semicolons.push(value.len());
+    semicolons.windows(2).find_map(|w| {
+        let name = value[w[0] + 1..w[1]].split('=').next().unwrap_or("");
+        name.trim()
+            .eq_ignore_ascii_case("tag")
+            .then_some((w[0], w[1]))
+    })
+}
+
 /// Overwrites the `To` header's `tag` parameter, replacing any
 /// existing tag. Used when the response must carry a specific tag
 /// chosen by an already-built dialog (e.g. a reliable 1xx whose tag
@@ -1503,12 +1523,9 @@ fn replace_to_tag(response: &mut Response, tag: &str) {
         return;
     };
     // Strip any existing `;tag=...` (up to the next `;` or end).
-    let stripped = if let Some(idx) = to.find(";tag=") {
-        let after = &to[idx + 5..];
-        let end_off = after.find(';').map(|p| idx + 5 + p).unwrap_or(to.len());
-        format!("{}{}", &to[..idx], &to[end_off..])
-    } else {
-        to.to_string()
+    let stripped = match tag_param_span(&to) {
+        Some((start, end)) => format!("{}{}", &to[..start], &to[end..]),
+        None => to.to_string(),
     };
     let new_to = format!("{};tag={}", stripped, tag);
     response
@@ -1526,7 +1543,7 @@ fn ensure_to_tag_header(response: &mut Response) {
     for header in response.headers().iter() {
         if header.name() == "To" {
             to_value = Some(header.value_smol().clone());
-            has_tag = header.value().contains(";tag=");
+            has_tag = extract_tag_param(header.value_smol()).is_some();
             break;
         }
     }
-- 
2.43.0


From 7b91c8a9fe8deb240835acf2d41a248e186b4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 106/132] fix: From and To URIs are misread when the quoted
 display name holds '<' or ';'

---
 crates/sip-uac/src/integrated.rs | 10 +------
 crates/sip-uac/src/lib.rs        | 51 +++++++++++++++++---------------
 crates/sip-uas/src/lib.rs        | 42 ++++++++++++++++----------
 3 files changed, 55 insertions(+), 48 deletions(-)

diff --git a/crates/sip-uac/src/integrated.rs b/crates/sip-uac/src/integrated.rs
index 2e7d8b2..acbed9e 100644
--- a/crates/sip-uac/src/integrated.rs
+++ b/crates/sip-uac/src/integrated.rs
@@ -382,15 +382,7 @@ fn build_via_value(
 /// is the wrong source (siphon-ai #549).
 fn request_from_uri(request: &Request) -> Option<SipUri> {
     let from = request.headers().get_smol("From")?;
-    let uri_str = if let Some(start) = from.find('<') {
-        let end = from[start + 1..].find('>')?;
-        &from[start + 1..start + 1 + end]
-    } else if let Some(semi) = from.find(';') {
-        &from[..semi]
-    } else {
-        from.as_str()
-    };
-    SipUri::parse(uri_str.trim()).ok()
+    SipUri::parse(crate::addr_spec(&from)?.trim()).ok()
 }
 
 fn request_from_tag(request: &Request) -> SmolStr {
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index bdda6d6..5b5bb74 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -3520,35 +3520,38 @@ fn dialog_local_uri(request: &Request, configured: &SipUri) -> SipUri {
 /// Extract the From URI from a request. Mirrors [`extract_to_uri`].
 fn extract_from_uri(request: &Request) -> Option<SipUri> {
     let from_header = header(request.headers(), "From")?;
-    let uri_str = if let Some(start) = from_header.find('<') {
-        let end = from_header[start + 1..].find('>')?;
-        &from_header[start + 1..start + 1 + end]
-    } else if let Some(semi) = from_header.find(';') {
-        &from_header[..semi]
-    } else {
-        from_header
-    };
-    SipUri::parse(uri_str.trim()).ok()
+    SipUri::parse(addr_spec(from_header)?.trim()).ok()
 }
 
 fn extract_to_uri(response: &Response) -> Option<SipUri> {
     let to_header = header(response.headers(), "To")?;
-    // Simple extraction - look for URI between < >
-    let uri_str = if let Some(start) = to_header.find('<') {
-        {
-            let end = to_header[start + 1..].find('>')?;
-            &to_header[start + 1..start + 1 + end]
-        }
-    } else {
-        // No brackets, take until semicolon or end
-        if let Some(semi) = to_header.find(';') {
-            &to_header[..semi]
-        } else {
-            to_header.as_str()
-        }
-    };
+    SipUri::parse(addr_spec(to_header)?.trim()).ok()
+}
 
-    SipUri::parse(uri_str.trim()).ok()
+/// The URI of a From/To value: what stands between the angle brackets, or
+/// all before the first parameter. Brackets and semicolons inside a quoted
+/// display name belong to the name.
+pub(crate) fn addr_spec(value: &str) -> Option<&str> {
+    let unquoted = |wanted: char| {
+        let (mut in_quotes, mut escaped) = (false, false);
+        value.char_indices().find_map(|(idx, ch)| {
+            match ch {
+                _ if escaped => escaped = false,
+                '\\' if in_quotes => escaped = true,
+                '"' => in_quotes = !in_quotes,
+                _ if ch == wanted && !in_quotes => return Some(idx),
+                _ => {}
+            }
+            None
+        })
+    };
+    match unquoted('<') {
+        Some(start) => {
+            let end = value[start + 1..].find('>')?;
+            Some(&value[start + 1..start + 1 + end])
+        }
+        None => Some(unquoted(';').map_or(value, |semi| &value[..semi])),
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 6c3641b..b980337 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1563,26 +1563,38 @@ fn ensure_to_tag_header(response: &mut Response) {
     }
 }
 
+/// The URI of a From/To value: what stands between the angle brackets, or
+/// all before the first parameter. Brackets and semicolons inside a quoted
+/// display name belong to the name.
+fn addr_spec(value: &str) -> Option<&str> {
+    let unquoted = |wanted: char| {
+        let (mut in_quotes, mut escaped) = (false, false);
+        value.char_indices().find_map(|(idx, ch)| {
+            match ch {
+                _ if escaped => escaped = false,
+                '\\' if in_quotes => escaped = true,
+                '"' => in_quotes = !in_quotes,
+                _ if ch == wanted && !in_quotes => return Some(idx),
+                _ => {}
+            }
+            None
+        })
+    };
+    match unquoted('<') {
+        Some(start) => {
+            let end = value[start + 1..].find('>')?;
+            Some(&value[start + 1..start + 1 + end])
+        }
+        None => Some(unquoted(';').map_or(value, |semi| &value[..semi])),
+    }
+}
+
 /// Extract From URI from request.
 fn extract_from_uri(request: &Request) -> Result<SipUri> {
     let from_header =
         header(request.headers(), "From").ok_or_else(|| anyhow!("Missing From header"))?;
 
-    // Simple extraction - look for URI between < >
-    let uri_str = if let Some(start) = from_header.find('<') {
-        if let Some(end) = from_header[start + 1..].find('>') {
-            &from_header[start + 1..start + 1 + end]
-        } else {
-            return Err(anyhow!("Malformed From header"));
-        }
-    } else {
-        // No brackets, take until semicolon or end
-        if let Some(semi) = from_header.find(';') {
-            &from_header[..semi]
-        } else {
-            from_header
-        }
-    };
+    let uri_str = addr_spec(from_header).ok_or_else(|| anyhow!("Malformed From header"))?;
 
     SipUri::parse(uri_str.trim()).map_err(|_| anyhow!("Failed to parse From URI"))
 }
-- 
2.43.0


From ec6a3919e36c9d46556e826ec1e4a372101ac103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 107/132] fix: answering a request with very many Via or
 Record-Route headers, or a very long To, panics

---
 crates/sip-uas/src/lib.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index b980337..4504f75 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -41,6 +41,10 @@ const MAX_REASON_PHRASE_LENGTH: usize = 128;
 const MAX_SIP_ETAG_LENGTH: usize = 256;
 const MAX_BODY_LENGTH: usize = 1_048_576; // 1 MB max body
 
+/// How many of the request's headers a response copies at most. A message
+/// has room for 200; the rest is for those the response adds itself.
+const MAX_COPIED_HEADERS: usize = 180;
+
 // Prepared for future integrated.rs hardening (UASConfig.user_agent field)
 #[allow(dead_code)]
 const MAX_USER_AGENT_LENGTH: usize = 256;
@@ -286,7 +290,8 @@ impl UserAgentServer {
         let mut headers = Headers::new();
 
         // Copy Via, From, Call-ID, CSeq from request
-        for via in request.headers().get_all_smol("Via") {
+        let vias = request.headers().get_all_smol("Via");
+        for via in vias.take(MAX_COPIED_HEADERS) {
             headers.push(SmolStr::new("Via"), via).unwrap();
         }
         if let Some(from) = request.headers().get("From") {
@@ -314,7 +319,9 @@ impl UserAgentServer {
         // into Record-Route. Copying unconditionally here matches
         // how Via/From/To/Call-ID/CSeq are handled and is harmless
         // for non-dialog responses (where Record-Route is ignored).
-        for rr in request.headers().get_all_smol("Record-Route") {
+        let room = MAX_COPIED_HEADERS.saturating_sub(headers.len());
+        let record_routes = request.headers().get_all_smol("Record-Route");
+        for rr in record_routes.take(room) {
             headers.push(SmolStr::new("Record-Route"), rr).unwrap();
         }
 
@@ -1528,10 +1535,7 @@ fn replace_to_tag(response: &mut Response, tag: &str) {
         None => to.to_string(),
     };
     let new_to = format!("{};tag={}", stripped, tag);
-    response
-        .headers_mut()
-        .set_or_push("To", &new_to)
-        .expect("to header should be valid");
+    let _ = response.headers_mut().set_or_push("To", &new_to);
 }
 
 /// Adds a tag to the To header if not already present.
@@ -1554,11 +1558,9 @@ fn ensure_to_tag_header(response: &mut Response) {
             let tag = generate_tag();
             let new_to = format!("{};tag={}", to.as_str(), tag.as_str());
 
-            // Replace To header
-            response
-                .headers_mut()
-                .set_or_push("To", &new_to)
-                .expect("to header should be valid");
+            // Replace To header. A value so long that the tag does not
+            // fit goes out as it came.
+            let _ = response.headers_mut().set_or_push("To", &new_to);
         }
     }
 }
-- 
2.43.0


From 661deeeecec5f4905c485c9ccee43d8c47b7b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 108/132] fix: NOTIFYs of a new subscription are addressed to
 the notifier itself

---
 crates/sip-dialog/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 8c50c4d..8481d8b 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1580,7 +1580,9 @@ impl Subscription {
         remote_uri: SipUri,
     ) -> Option<Self> {
         let id = SubscriptionId::from_request_response(request, response)?;
-        let contact = extract_contact_uri(response.headers())?;
+        // NOTIFYs go to the subscriber, whose Contact is in its SUBSCRIBE;
+        // the response carries our own.
+        let contact = extract_contact_uri(request.headers()).unwrap_or_else(|| remote_uri.clone());
         let local_cseq = parse_cseq_number(request.headers())?;
         validate_subscription_cseq(local_cseq).ok()?;
 
-- 
2.43.0


From 43745f0a37c71448d30c9b8cb50d70a664c2ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 109/132] fix: a PRACK with an unreadable RAck is answered 481
 instead of 400

---
 crates/sip-uas/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/sip-uas/src/lib.rs b/crates/sip-uas/src/lib.rs
index 4504f75..d56e2ce 100644
--- a/crates/sip-uas/src/lib.rs
+++ b/crates/sip-uas/src/lib.rs
@@ -1346,6 +1346,7 @@ impl UserAgentServer {
             // RFC 3262 §4: Return 400 for malformed/invalid RAck, 481 for no dialog/transaction
             let response = if err_msg.contains("missing RAck")
                 || err_msg.contains("Invalid RAck")
+                || err_msg.contains("in RAck")
                 || err_msg.contains("does not match")
                 || err_msg.contains("Duplicate PRACK")
             {
-- 
2.43.0


From f271b8274d65314123c14addb2d9725610aa4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 110/132] fix: in-dialog requests name the client's own address
 and an unescaped display name in From

---
 crates/sip-uac/src/lib.rs | 56 +++++++--------------------------------
 1 file changed, 10 insertions(+), 46 deletions(-)

diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 5b5bb74..1e2f747 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -1397,20 +1397,8 @@ impl UserAgentClient {
             .unwrap();
 
         // From (with local tag)
-        let from = if let Some(ref display) = self.display_name {
-            format!(
-                "\"{}\" <{}>;tag={}",
-                display,
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        } else {
-            format!(
-                "<{}>;tag={}",
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        };
+        let from =
+            self.format_from_header_tagged(Some(dialog.local_uri()), dialog.id().local_tag());
         headers
             .push(SmolStr::new("From"), SmolStr::new(from))
             .unwrap();
@@ -1509,20 +1497,8 @@ impl UserAgentClient {
             .unwrap();
 
         // From (with local tag)
-        let from = if let Some(ref display) = self.display_name {
-            format!(
-                "\"{}\" <{}>;tag={}",
-                display,
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        } else {
-            format!(
-                "<{}>;tag={}",
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        };
+        let from =
+            self.format_from_header_tagged(Some(dialog.local_uri()), dialog.id().local_tag());
         headers
             .push(SmolStr::new("From"), SmolStr::new(from))
             .unwrap();
@@ -1810,7 +1786,7 @@ impl UserAgentClient {
         // From (with local tag)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            dialog.local_uri().as_str(),
             dialog.id().local_tag()
         );
         headers
@@ -2208,20 +2184,8 @@ impl UserAgentClient {
             .unwrap();
 
         // From (with local tag)
-        let from = if let Some(ref display) = self.display_name {
-            format!(
-                "\"{}\" <{}>;tag={}",
-                display,
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        } else {
-            format!(
-                "<{}>;tag={}",
-                self.local_uri.as_str(),
-                dialog.id().local_tag()
-            )
-        };
+        let from =
+            self.format_from_header_tagged(Some(dialog.local_uri()), dialog.id().local_tag());
         headers
             .push(SmolStr::new("From"), SmolStr::new(from))
             .unwrap();
@@ -2432,7 +2396,7 @@ impl UserAgentClient {
         let subscription = Subscription::new_subscriber(
             request,
             response,
-            self.local_uri.clone(),
+            dialog_local_uri(request, &self.local_uri),
             extract_to_uri(response)?,
         )?;
 
@@ -2804,7 +2768,7 @@ impl UserAgentClient {
         // From (with local tag from dialog)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            dialog.local_uri().as_str(),
             dialog.id().local_tag()
         );
         headers
@@ -2918,7 +2882,7 @@ impl UserAgentClient {
         // From (with local tag from dialog)
         let from = format!(
             "<{}>;tag={}",
-            self.local_uri.as_str(),
+            dialog.local_uri().as_str(),
             dialog.id().local_tag()
         );
         headers
-- 
2.43.0


From 05bda78fe7d87de5e91b6fd385e685e3686d8db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 111/132] fix: clients answer the right challenge, keep
 REGISTER CSeq rising and survive odd challenges

---
 crates/sip-uac/src/auth_utils.rs | 112 ++++++++++++++-------
 crates/sip-uac/src/lib.rs        | 163 ++++++++++---------------------
 2 files changed, 125 insertions(+), 150 deletions(-)

diff --git a/crates/sip-uac/src/auth_utils.rs b/crates/sip-uac/src/auth_utils.rs
index 94de843..9d005a5 100644
--- a/crates/sip-uac/src/auth_utils.rs
+++ b/crates/sip-uac/src/auth_utils.rs
@@ -2,63 +2,101 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::MAX_AUTH_PARAMS;
+use anyhow::{anyhow, Result};
+use sip_auth::DigestAlgorithm;
 use sip_core::Response;
+use std::collections::HashMap;
+
+/// The challenge a client answers: the first Digest challenge among the
+/// headers of this name that it knows the algorithm of.
+pub(crate) fn usable_challenge(response: &Response, name: &str) -> Option<HashMap<String, String>> {
+    response
+        .headers()
+        .get_all_smol(name)
+        .filter_map(|value| parse_www_authenticate(value).ok())
+        .find(|params| {
+            params
+                .get("algorithm")
+                .is_none_or(|a| DigestAlgorithm::parse(a).is_some())
+        })
+}
 
 /// Extract realm value from WWW-Authenticate/Proxy-Authenticate headers.
+///
+/// This is the realm of the challenge that will be answered: a 407 is
+/// answered by its Proxy-Authenticate, anything else by WWW-Authenticate.
 pub fn extract_realm(response: &Response) -> Option<String> {
-    let header_val = response
-        .headers()
-        .get("WWW-Authenticate")
-        .or_else(|| response.headers().get("Proxy-Authenticate"))?;
-    let header = header_val.trim();
-    let header_lower = header.to_ascii_lowercase();
-    let digest_pos = header_lower.find("digest")?;
-    let params = header[digest_pos + "Digest".len()..].trim_start();
+    let names = if response.code() == 407 {
+        ["Proxy-Authenticate", "WWW-Authenticate"]
+    } else {
+        ["WWW-Authenticate", "Proxy-Authenticate"]
+    };
+    names
+        .iter()
+        .find_map(|name| usable_challenge(response, name))
+        .and_then(|mut params| params.remove("realm"))
+}
 
-    split_auth_params(params).into_iter().find_map(|part| {
-        let trimmed = part.trim();
-        let trimmed = trimmed
-            .strip_prefix("Digest")
-            .unwrap_or(trimmed)
-            .trim_start();
-        let (key, value) = trimmed.split_once('=')?;
-        if key.trim().eq_ignore_ascii_case("realm") {
-            let value = value.trim();
-            let value = if value.starts_with('"') && value.ends_with('"') {
-                &value[1..value.len() - 1]
-            } else {
-                value
-            };
-            Some(value.to_string())
-        } else {
-            None
+/// The parameters of a Digest challenge or credentials value: names in
+/// lower case, values without their quotes.
+pub(crate) fn parse_www_authenticate(value: &str) -> Result<HashMap<String, String>> {
+    let params = value
+        .trim()
+        .split_once(char::is_whitespace)
+        .filter(|(scheme, _)| scheme.eq_ignore_ascii_case("digest"))
+        .map(|(_, params)| params)
+        .ok_or_else(|| anyhow!("Not a Digest challenge"))?;
+    let mut map = HashMap::new();
+    for param in split_auth_params(params) {
+        let Some((name, value)) = param.split_once('=') else {
+            continue;
+        };
+        let name = name.trim();
+        if name.contains(char::is_whitespace) {
+            // Another challenge in the same header starts here.
+            break;
+        }
+        if map.len() >= MAX_AUTH_PARAMS {
+            return Err(anyhow!(
+                "Too many authentication parameters (max: {})",
+                MAX_AUTH_PARAMS
+            ));
         }
-    })
+        map.entry(name.to_ascii_lowercase())
+            .or_insert_with(|| unquote(value.trim()));
+    }
+    Ok(map)
+}
+
+/// The text between a value's quotes, escapes included: it goes back to the
+/// server inside quotes the way it came.
+fn unquote(value: &str) -> String {
+    value
+        .strip_prefix('"')
+        .and_then(|rest| rest.strip_suffix('"'))
+        .unwrap_or(value)
+        .to_string()
 }
 
 fn split_auth_params(input: &str) -> Vec<&str> {
     let mut parts = Vec::new();
-    let mut in_quotes = false;
+    let (mut in_quotes, mut escaped) = (false, false);
     let mut start = 0;
 
     for (idx, ch) in input.char_indices() {
         match ch {
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             ',' if !in_quotes => {
-                let part = input[start..idx].trim();
-                if !part.is_empty() {
-                    parts.push(part);
-                }
+                parts.push(input[start..idx].trim());
                 start = idx + 1;
             }
             _ => {}
         }
     }
-
-    let tail = input[start..].trim();
-    if !tail.is_empty() {
-        parts.push(tail);
-    }
-
+    parts.push(input[start..].trim());
+    parts.retain(|part| !part.is_empty());
     parts
 }
diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 1e2f747..1250ee0 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -22,6 +22,7 @@ pub mod integrated;
 pub use integrated::{CredentialProvider, Flow, SessionTimerState, SessionTimerStop};
 pub use sip_sdp::profiles::{MediaProfileBuilder, SdpProfile};
 
+use crate::auth_utils::{parse_www_authenticate, usable_challenge};
 use anyhow::{anyhow, Result};
 use bytes::Bytes;
 use rand::{distr::Alphanumeric, RngExt};
@@ -885,13 +886,9 @@ impl UserAgentClient {
             "WWW-Authenticate"
         };
 
-        // Parse challenge
-        let auth_header = challenge_response
-            .headers()
-            .get_smol(auth_header_name)
-            .ok_or_else(|| anyhow!("Missing {} header", auth_header_name))?;
-
-        let challenge = parse_www_authenticate(auth_header)?;
+        // The challenge to answer
+        let challenge = usable_challenge(challenge_response, auth_header_name)
+            .ok_or_else(|| anyhow!("No {} challenge to answer", auth_header_name))?;
 
         // Extract challenge parameters
         let realm = challenge
@@ -907,10 +904,14 @@ impl UserAgentClient {
             .unwrap_or(DigestAlgorithm::Md5);
 
         let qop = challenge.get("qop").and_then(|q| {
-            // qop might be "auth,auth-int" - take the first supported one
-            if q.contains("auth-int") {
+            // qop might be "auth,auth-int" - take the strongest one offered
+            let offered = |name: &str| {
+                q.split(',')
+                    .any(|item| item.trim().eq_ignore_ascii_case(name))
+            };
+            if offered("auth-int") {
                 Some(Qop::AuthInt)
-            } else if q.contains("auth") {
+            } else if offered("auth") {
                 Some(Qop::Auth)
             } else {
                 None
@@ -945,40 +946,37 @@ impl UserAgentClient {
         // Copy all headers from original request, incrementing CSeq
         let mut cseq_incremented = false;
         for header in original_request.headers().iter() {
-            if header.name() == "Via" {
-                let via_value = replace_via_branch(header.value(), &new_branch);
-                new_headers
-                    .push(SmolStr::new("Via"), SmolStr::new(via_value))
-                    .unwrap();
-            } else if header.name() == "CSeq" && !cseq_incremented {
-                if let Some((num, method)) = header.value().split_once(' ') {
-                    if let Ok(mut cseq_num) = num.parse::<u32>() {
-                        cseq_num += 1;
-                        new_headers
-                            .push(
-                                SmolStr::new("CSeq"),
-                                SmolStr::new(format!("{} {}", cseq_num, method)),
-                            )
-                            .unwrap();
-                        cseq_incremented = true;
-                        continue;
-                    }
+            let name = header.name();
+            let value = if name.eq_ignore_ascii_case("Via") {
+                SmolStr::new(replace_via_branch(header.value(), &new_branch))
+            } else if name.eq_ignore_ascii_case("CSeq") && !cseq_incremented {
+                let (num, method) = header
+                    .value()
+                    .split_once(char::is_whitespace)
+                    .ok_or_else(|| anyhow!("Invalid CSeq: {}", header.value()))?;
+                let cseq = num
+                    .parse::<u32>()?
+                    .checked_add(1)
+                    .ok_or_else(|| anyhow!("CSeq exhausted"))?;
+                if original_request.method() == &Method::Register {
+                    self.note_register_cseq(original_request.uri().as_str(), cseq);
                 }
-                // If parsing failed, just copy as-is
-                new_headers
-                    .push(header.name_smol().clone(), header.value_smol().clone())
-                    .unwrap();
+                cseq_incremented = true;
+                SmolStr::new(format!("{} {}", cseq, method.trim()))
+            } else if name.eq_ignore_ascii_case(response_header_name)
+                && parse_www_authenticate(header.value())
+                    .is_ok_and(|old| old.get("realm") == Some(realm))
+            {
+                // Credentials this challenge has just turned down
+                continue;
             } else {
-                new_headers
-                    .push(header.name_smol().clone(), header.value_smol().clone())
-                    .unwrap();
-            }
+                header.value_smol().clone()
+            };
+            new_headers.push(header.name_smol().clone(), value)?;
         }
 
         // Add authorization header
-        new_headers
-            .push(SmolStr::new(response_header_name), SmolStr::new(auth_value))
-            .unwrap();
+        new_headers.push(SmolStr::new(response_header_name), SmolStr::new(auth_value))?;
 
         let new_request = Request::new(
             original_request.start_line().clone(),
@@ -1242,7 +1240,7 @@ impl UserAgentClient {
 
         // CSeq (same number as INVITE, but ACK method)
         if let Some(cseq) = invite_request.headers().get("CSeq") {
-            if let Some((num, _)) = cseq.split_once(' ') {
+            if let Some(num) = cseq.split_whitespace().next() {
                 headers
                     .push(SmolStr::new("CSeq"), SmolStr::new(format!("{} ACK", num)))
                     .unwrap();
@@ -3178,6 +3176,18 @@ impl UserAgentClient {
         tag
     }
 
+    /// Records the CSeq of an authenticated REGISTER, so that the next
+    /// refresh is numbered after it.
+    fn note_register_cseq(&self, registrar_uri: &str, cseq: u32) {
+        let mut map = self
+            .register_cseqs
+            .lock()
+            .expect("register_cseqs lock poisoned");
+        if let Some(current) = map.get_mut(registrar_uri) {
+            *current = cseq.max(*current);
+        }
+    }
+
     /// Returns the next CSeq to use on a REGISTER for this registrar. Starts
     /// at 1 for the first request, increments monotonically on each
     /// subsequent call. Paired with `register_call_id` so refresh and
@@ -3360,79 +3370,6 @@ fn deterministic_counter() -> Option<u64> {
 
     seed.map(|base| base.wrapping_add(COUNTER.fetch_add(1, Ordering::Relaxed)))
 }
-fn parse_www_authenticate(value: &SmolStr) -> Result<std::collections::HashMap<String, String>> {
-    use std::collections::HashMap;
-
-    let mut map = HashMap::new();
-
-    let header = value.as_str().trim();
-    let header_lower = header.to_ascii_lowercase();
-    let digest_pos = header_lower
-        .find("digest")
-        .ok_or_else(|| anyhow!("Not a Digest challenge"))?;
-    let params = header[digest_pos + "Digest".len()..].trim_start();
-
-    let mut param_count = 0;
-    for param in split_auth_params(params) {
-        // Enforce maximum auth parameters limit (DoS prevention)
-        if param_count >= MAX_AUTH_PARAMS {
-            return Err(anyhow!(
-                "Too many authentication parameters (max: {})",
-                MAX_AUTH_PARAMS
-            ));
-        }
-
-        let trimmed = param.trim();
-        let trimmed = trimmed
-            .strip_prefix("Digest")
-            .unwrap_or(trimmed)
-            .trim_start();
-        if let Some(eq_pos) = trimmed.find('=') {
-            let key = trimmed[..eq_pos].trim().to_string();
-            let value = trimmed[eq_pos + 1..].trim();
-
-            // Remove quotes if present
-            let value = if value.starts_with('"') && value.ends_with('"') {
-                value[1..value.len() - 1].to_string()
-            } else {
-                value.to_string()
-            };
-
-            map.insert(key, value);
-            param_count += 1;
-        }
-    }
-
-    Ok(map)
-}
-
-fn split_auth_params(input: &str) -> Vec<&str> {
-    let mut parts = Vec::new();
-    let mut in_quotes = false;
-    let mut start = 0;
-
-    for (idx, ch) in input.char_indices() {
-        match ch {
-            '"' => in_quotes = !in_quotes,
-            ',' if !in_quotes => {
-                let part = input[start..idx].trim();
-                if !part.is_empty() {
-                    parts.push(part);
-                }
-                start = idx + 1;
-            }
-            _ => {}
-        }
-    }
-
-    let tail = input[start..].trim();
-    if !tail.is_empty() {
-        parts.push(tail);
-    }
-
-    parts
-}
-
 pub(crate) fn replace_via_branch(via: &str, new_branch: &str) -> String {
     let mut parts = via.split(';');
     let base = parts.next().unwrap_or("").trim();
-- 
2.43.0


From 91770eee62c813a59b5434801e022b878f2b6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 112/132] fix: REFER with Replaces escapes the whole Replaces
 value; an oversized Service-Route no longer panics

---
 crates/sip-uac/src/lib.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/sip-uac/src/lib.rs b/crates/sip-uac/src/lib.rs
index 1250ee0..ec3a6c1 100644
--- a/crates/sip-uac/src/lib.rs
+++ b/crates/sip-uac/src/lib.rs
@@ -833,8 +833,13 @@ impl UserAgentClient {
                 }
             }
 
-            *request.headers_mut() =
-                Headers::from_vec(new_headers).expect("route header list should be within limits");
+            match Headers::from_vec(new_headers) {
+                Ok(headers) => *request.headers_mut() = headers,
+                Err(err) => {
+                    tracing::warn!("Service-Route does not fit into the request: {}", err);
+                    return;
+                }
+            }
 
             info!(
                 "Applied {} Service-Route entries as Route headers",
@@ -2858,13 +2863,23 @@ impl UserAgentClient {
         // Build Replaces parameter: call-id;to-tag=X;from-tag=Y
         let replaces = format!(
             "{};to-tag={};from-tag={}",
-            urlencoding::encode(target_dialog.id().call_id()),
-            urlencoding::encode(target_dialog.id().remote_tag()),
-            urlencoding::encode(target_dialog.id().local_tag())
+            target_dialog.id().call_id(),
+            target_dialog.id().remote_tag(),
+            target_dialog.id().local_tag()
         );
 
-        // Create Refer-To with Replaces parameter
-        let refer_to_with_replaces = format!("<{}?Replaces={}>", refer_to_uri.as_str(), replaces);
+        // Create Refer-To with Replaces as one (escaped) URI header, RFC 3891 §3
+        let separator = if refer_to_uri.as_str().contains('?') {
+            '&'
+        } else {
+            '?'
+        };
+        let refer_to_with_replaces = format!(
+            "<{}{}Replaces={}>",
+            refer_to_uri.as_str(),
+            separator,
+            urlencoding::encode(&replaces)
+        );
 
         let mut headers = Headers::new();
 
-- 
2.43.0


From 0e141a7b2363ce8214f4bc057fa26aa98405110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 113/132] fix: the TCP pool notices closed peers, keeps one
 connection per peer and waits without its lock

---
 crates/sip-transport/src/pool.rs | 105 +++++++++++++++++++++++--------
 1 file changed, 78 insertions(+), 27 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index ccc9ab2..42ef8b9 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -8,14 +8,14 @@ use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, Result};
 use bytes::{Bytes, BytesMut};
-use dashmap::DashMap;
+use dashmap::{mapref::entry::Entry, DashMap};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     net::TcpStream,
     sync::{
         broadcast,
         mpsc::{self, Sender},
-        Mutex, OwnedSemaphorePermit, Semaphore,
+        oneshot, Mutex, OwnedSemaphorePermit, Semaphore,
     },
 };
 use tracing::{debug, warn};
@@ -260,6 +260,7 @@ fn spawn_writer_supervisor<K, F>(
     K: std::hash::Hash + Eq + Clone + Send + Sync + 'static,
     F: FnOnce(&K) -> String + Send + 'static,
 {
+    let writer_id = writer.id();
     tokio::spawn(async move {
         let outcome = writer.await;
         let key_label = format_key(&key);
@@ -290,7 +291,12 @@ fn spawn_writer_supervisor<K, F>(
                 event_reason = Some(format!("writer cancelled: {e}"));
             }
         }
-        map.remove(&key);
+        // Only this writer's own entry: a newer connection may have taken its
+        // place by now.
+        map.remove_if(&key, |_, entry| {
+            entry.task_handles.is_empty()
+                || entry.task_handles.iter().any(|task| task.id() == writer_id)
+        });
 
         // Emit a ConnectionEvent so observers (metrics, reconnect
         // policies) see the death without waiting for the next send
@@ -511,17 +517,21 @@ impl ConnectionPool {
         debug!(peer = %addr, "send_tcp called");
 
         // Try to use existing connection
-        if let Some(mut entry) = self.tcp.get_mut(&addr) {
-            debug!(peer = %addr, "found existing TCP connection, reusing");
+        // (the map's lock is released before waiting for room in the queue)
+        let existing = self.tcp.get_mut(&addr).map(|mut entry| {
             entry.touch(); // Update last activity time
-            if entry.sender.send(payload.clone()).await.is_ok() {
+            entry.sender.clone()
+        });
+        if let Some(sender) = existing {
+            debug!(peer = %addr, "found existing TCP connection, reusing");
+            if sender.send(payload.clone()).await.is_ok() {
                 debug!(peer = %addr, "reused existing TCP connection successfully");
                 return Ok(());
             }
             // Connection failed, remove it
             debug!(peer = %addr, "existing TCP connection failed, removing");
-            drop(entry);
-            self.tcp.remove(&addr);
+            self.tcp
+                .remove_if(&addr, |_, entry| entry.sender.same_channel(&sender));
         }
 
         debug!(peer = %addr, "no existing connection found, creating new TCP connection");
@@ -546,6 +556,39 @@ impl ConnectionPool {
         // responses on this connection are otherwise invisible to Homer
         // (siphon-ai #341).
         let hep_local = stream.local_addr().ok();
+        let inbound_tx = self.inbound_tx.lock().await.clone();
+        let tx = self.pool_tcp_stream(addr, stream, permit, hep_local, inbound_tx);
+
+        let result = tx
+            .send(payload)
+            .await
+            .map_err(|_| anyhow!("connection writer closed"));
+        if result.is_err() {
+            self.tcp
+                .remove_if(&addr, |_, entry| entry.sender.same_channel(&tx));
+        }
+        result
+    }
+
+    /// Puts a fresh connection into the pool and returns its send queue. If
+    /// a concurrent sender has connected to the same peer in the meantime,
+    /// its connection is kept and this one is dropped.
+    fn pool_tcp_stream(
+        &self,
+        addr: SocketAddr,
+        stream: TcpStream,
+        permit: OwnedSemaphorePermit,
+        hep_local: Option<SocketAddr>,
+        inbound_tx: Option<Sender<InboundPacket>>,
+    ) -> Sender<Bytes> {
+        let slot = self.tcp.entry(addr);
+        if let Entry::Occupied(present) = &slot {
+            if !present.get().sender.is_closed() {
+                debug!(peer = %addr, "peer was connected to concurrently, reusing");
+                return present.get().sender.clone();
+            }
+        }
+
         let (mut reader, mut writer) = stream.into_split();
         let (tx, mut rx) = mpsc::channel::<Bytes>(64);
         let mut entry = PoolEntry::new(tx.clone(), permit);
@@ -555,11 +598,25 @@ impl ConnectionPool {
         // RFC 6223 keepalive pings (`\r\n\r\n`) on idle — the channel
         // branch resets the keepalive timer on every real send, so
         // busy connections never ping spuriously.
+        //
+        // It ends with the reader: once the peer has closed, nothing more
+        // can be sent on this connection.
         let writer_tx = tx.clone();
         let keepalive = self.keepalive_interval;
+        let (reader_alive, reader_gone) = oneshot::channel::<()>();
+        let has_reader = inbound_tx.is_some();
         let writer_handle = tokio::spawn(async move {
-            run_stream_writer_with_keepalive(&mut writer, &mut rx, keepalive, hep_local, addr)
-                .await;
+            tokio::select! {
+                biased;
+                _ = run_stream_writer_with_keepalive(
+                    &mut writer,
+                    &mut rx,
+                    keepalive,
+                    hep_local,
+                    addr,
+                ) => {}
+                _ = reader_gone, if has_reader => {}
+            }
         });
         entry.task_handles.push(writer_handle.abort_handle());
         // Supervise the writer: whenever it exits (graceful close,
@@ -582,15 +639,11 @@ impl ConnectionPool {
         );
 
         // Optional reader task to deliver responses back to the inbound pipeline
-        let inbound_tx_guard = self.inbound_tx.lock().await;
-        let has_inbound_tx = inbound_tx_guard.is_some();
-        debug!(peer = %addr, has_inbound_tx = %has_inbound_tx, "checking if inbound_tx is set");
-
-        if let Some(inbound_tx) = inbound_tx_guard.clone() {
-            drop(inbound_tx_guard);
+        if let Some(inbound_tx) = inbound_tx {
             let peer = addr;
             debug!(peer = %peer, "spawning TCP client reader task for outbound connection");
             let reader_handle = tokio::spawn(async move {
+                let _reader_alive = reader_alive;
                 let mut buf = BytesMut::with_capacity(4096);
                 debug!(peer = %peer, "TCP client reader task started");
                 loop {
@@ -674,21 +727,19 @@ impl ConnectionPool {
             });
             entry.task_handles.push(reader_handle.abort_handle());
         } else {
-            drop(inbound_tx_guard);
             debug!(peer = %addr, "inbound_tx is None, skipping TCP client reader task");
         }
 
-        self.tcp.insert(addr, entry);
-        debug!(peer = %addr, "inserted connection into pool");
-
-        let result = tx
-            .send(payload)
-            .await
-            .map_err(|_| anyhow!("connection writer closed"));
-        if result.is_err() {
-            self.tcp.remove(&addr);
+        match slot {
+            Entry::Occupied(mut present) => {
+                present.insert(entry);
+            }
+            Entry::Vacant(vacant) => {
+                vacant.insert(entry);
+            }
         }
-        result
+        debug!(peer = %addr, "inserted connection into pool");
+        tx
     }
 
     /// Sends bytes over a pooled WebSocket connection; opens one if missing.
-- 
2.43.0


From 713c2d766fb3fbec9bbb315e4d64595e22eb4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 114/132] fix: capture reads Call-IDs in every header form and
 skips keepalive datagrams

---
 crates/sip-hep/src/headers.rs   | 34 +++++++++++++++++++++++----------
 crates/sip-transport/src/lib.rs | 13 ++++++++++---
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/crates/sip-hep/src/headers.rs b/crates/sip-hep/src/headers.rs
index 3682bec..c4b7d71 100644
--- a/crates/sip-hep/src/headers.rs
+++ b/crates/sip-hep/src/headers.rs
@@ -24,7 +24,9 @@ pub fn extract_call_id(payload: &[u8]) -> Option<&str> {
     // SIP message start-line is one line; headers start on line 2.
     // Body (after the empty line) cannot contain headers — bail
     // there to avoid false positives in SDP / message bodies.
-    let mut start = 0;
+    // Blank lines in front of the start line belong to no message
+    // (RFC 3261 §7.5).
+    let mut start = payload.iter().position(|b| !matches!(b, b'\r' | b'\n'))?;
     while start < payload.len() {
         let line_end = find_line_end(payload, start)?;
         let line = &payload[start..line_end];
@@ -37,7 +39,17 @@ pub fn extract_call_id(payload: &[u8]) -> Option<&str> {
         if let Some(value) = match_call_id(line) {
             // Trim leading whitespace + an optional CR if we matched
             // on a LF-only boundary.
-            let trimmed = trim_ascii(value);
+            let mut trimmed = trim_ascii(value);
+            // The value may stand on a continuation line (RFC 3261 §7.3.1).
+            let mut end = line_end;
+            while trimmed.is_empty() {
+                let next = skip_crlf(payload, end);
+                if !matches!(payload.get(next), Some(b' ' | b'\t')) {
+                    break;
+                }
+                end = find_line_end(payload, next)?;
+                trimmed = trim_ascii(&payload[next..end]);
+            }
             return std::str::from_utf8(trimmed).ok();
         }
 
@@ -58,14 +70,16 @@ fn starts_with_ci(bytes: &[u8], prefix: &[u8]) -> bool {
 }
 
 fn match_call_id(line: &[u8]) -> Option<&[u8]> {
-    // Long form: "Call-ID:" then value.
-    if starts_with_ci(line, b"Call-ID:") {
-        return Some(&line[b"Call-ID:".len()..]);
-    }
-    // Compact form: "i:" then value. Has to be a stand-alone header
-    // start so we don't false-match on (e.g.) "Identity:".
-    if starts_with_ci(line, b"i:") {
-        return Some(&line[b"i:".len()..]);
+    // Long form "Call-ID" or compact form "i", as the whole name: the
+    // colon follows directly or after blanks (RFC 3261 §7.3.1), so this
+    // doesn't false-match on (e.g.) "Identity:".
+    for name in [&b"Call-ID"[..], &b"i"[..]] {
+        if starts_with_ci(line, name) {
+            let rest = trim_ascii(&line[name.len()..]);
+            if let Some(value) = rest.strip_prefix(b":") {
+                return Some(value);
+            }
+        }
     }
     None
 }
diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 8ad4452..c9ca337 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -571,7 +571,8 @@ pub async fn run_udp(socket: Arc<UdpSocket>, tx: mpsc::Sender<InboundPacket>) ->
                 // HEP3 capture (chunk type 0x01 = SIP). No-op when no
                 // emitter is installed at the process level — the
                 // global access is one atomic load.
-                if let Some(emitter) = sip_hep::sip_hep() {
+                // CRLF-only keepalive datagrams aren't SIP; skip capture.
+                if let Some(emitter) = sip_hep::sip_hep().filter(|_| !is_crlf_only(&payload)) {
                     // Resolving local_addr per-packet would be a
                     // syscall on every inbound; cache it once outside
                     // the loop. We do that further up — but the lifetime
@@ -609,6 +610,11 @@ pub async fn run_udp(socket: Arc<UdpSocket>, tx: mpsc::Sender<InboundPacket>) ->
     Ok(())
 }
 
+/// True for keepalive payloads (only CR and LF, or nothing): not SIP.
+fn is_crlf_only(data: &[u8]) -> bool {
+    data.iter().all(|&b| b == b'\r' || b == b'\n')
+}
+
 /// Map a stream-transport kind to the HEP3 IP-protocol byte.
 ///
 /// HEP3 carries the *network* protocol of the captured payload — TCP
@@ -630,8 +636,9 @@ pub async fn send_udp(socket: &UdpSocket, to: &std::net::SocketAddr, data: &[u8]
     transport_metrics().on_packet_sent(TransportLabel::Udp);
     // HEP3 outbound capture. `local_addr()` here is one syscall per
     // outbound packet; cheap relative to a real SIP message. No-op
-    // when no emitter is installed.
-    if let Some(emitter) = sip_hep::sip_hep() {
+    // when no emitter is installed. CRLF-only keepalives aren't SIP;
+    // skip capture.
+    if let Some(emitter) = sip_hep::sip_hep().filter(|_| !is_crlf_only(data)) {
         if let Ok(local) = socket.local_addr() {
             let corr = sip_hep::extract_call_id(data);
             emitter.emit_sip(
-- 
2.43.0


From 0fae8725da362ffdd03b15613f6dc9493f29e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 115/132] fix: quoted values of Event, Subscription-State,
 Geolocation-Error and P-Access-Network-Info keep their semicolons

---
 crates/sip-parse/src/header_values.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index ea41f1c..97df11f 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -175,7 +175,7 @@ pub fn parse_resource_priority(value: &SmolStr) -> Option<ResourcePriorityHeader
 }
 
 pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted_semicolons(value).into_iter();
     let package = parts.next()?.trim();
     let mut header = EventHeader::new(package).ok()?;
     let mut has_id = false;
@@ -185,15 +185,15 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
+            let (name, val) = (name.trim(), unquote(val.trim()));
             if name.eq_ignore_ascii_case("id") {
                 if has_id {
                     return None;
                 }
-                header = header.with_id(val).ok()?;
+                header = header.with_id(&val).ok()?;
                 has_id = true;
             } else {
-                header.add_param(name, Some(val)).ok()?;
+                header.add_param(name, Some(&val)).ok()?;
             }
         } else {
             if part.eq_ignore_ascii_case("id") {
@@ -206,7 +206,7 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
 }
 
 pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted_semicolons(value).into_iter();
     let state = SubscriptionState::parse(parts.next().unwrap_or("").trim()).ok()?;
     let mut header = SubscriptionStateHeader::new(state);
     for part in parts {
@@ -215,8 +215,8 @@ pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHead
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
-            header.add_param(name, Some(val)).ok()?;
+            let (name, val) = (name.trim(), unquote(val.trim()));
+            header.add_param(name, Some(&val)).ok()?;
         } else {
             header.add_param(part, None).ok()?;
         }
@@ -290,7 +290,7 @@ pub fn parse_geolocation_header(headers: &Headers) -> Result<GeolocationHeader,
 pub fn parse_geolocation_error(
     value: &SmolStr,
 ) -> Result<GeolocationErrorHeader, GeolocationError> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted_semicolons(value).into_iter();
     let code = parts.next().map(|c| c.trim()).filter(|c| !c.is_empty());
     let mut header = GeolocationErrorHeader::new();
     if let Some(code) = code {
@@ -305,7 +305,7 @@ pub fn parse_geolocation_error(
         }
         if let Some((name, val)) = part.split_once('=') {
             let key = name.trim().to_ascii_lowercase();
-            let value = SmolStr::new(val.trim().trim_matches('"'));
+            let value = unquote(val.trim());
             if key == "reason" {
                 if let Ok(updated) = header.clone().with_description(value.as_str()) {
                     header = updated;
@@ -336,7 +336,7 @@ pub fn parse_geolocation_routing(
 }
 
 pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted_semicolons(value).into_iter();
     let access_type = parts.next()?.trim();
     let mut header = PAccessNetworkInfo::new(access_type).ok()?;
     for part in parts {
@@ -346,7 +346,7 @@ pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo
         }
         if let Some((name, val)) = part.split_once('=') {
             if header
-                .add_param(name.trim(), Some(val.trim().trim_matches('"')))
+                .add_param(name.trim(), Some(unquote(val.trim())))
                 .is_err()
             {
                 return None;
-- 
2.43.0


From 9fa96c5c397d540a8b5732a1c71b9d98a4b77994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 116/132] fix: a full URI parameter table still takes a new
 value for a parameter it has

---
 crates/sip-core/src/uri.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 6ee1e29..a7176a0 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -527,17 +527,17 @@ impl SipUri {
         name: impl Into<SmolStr>,
         value: Option<impl Into<SmolStr>>,
     ) -> Result<Self, UriError> {
-        if self.params.len() >= MAX_PARAMS {
+        let name = name.into();
+        validate_param_name(&name)?;
+        let name = SmolStr::new(name.to_ascii_lowercase());
+
+        if !self.params.contains_key(&name) && self.params.len() >= MAX_PARAMS {
             return Err(UriError::TooManyItems {
                 field: "parameters",
                 max: MAX_PARAMS,
             });
         }
 
-        let name = name.into();
-        validate_param_name(&name)?;
-        let name = SmolStr::new(name.to_ascii_lowercase());
-
         let value = match value {
             Some(v) => {
                 let v = v.into();
-- 
2.43.0


From af81ca1e7806e0b4d30d170d877681f2107f23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 117/132] fix: CPIM header parameters with blanks, which end a
 parameter, are refused

---
 crates/sip-core/src/cpim.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 461dcb6..09544e2 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -649,7 +649,7 @@ fn validate_param_name(name: &str) -> Result<(), CpimError> {
     }
     if name
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '=' | '\\' | '"'))
+        .any(|c| c.is_ascii_control() || matches!(c, ' ' | ';' | '=' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamName(
             "contains invalid characters".to_string(),
@@ -667,7 +667,7 @@ fn validate_param_value(value: &str) -> Result<(), CpimError> {
     }
     if value
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '\\' | '"'))
+        .any(|c| c.is_ascii_control() || matches!(c, ' ' | ';' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamValue(
             "contains invalid characters".to_string(),
-- 
2.43.0


From 509aa6ec38264da7fff49429a5c1314351100ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 118/132] fix: an answer's user name, session id and address
 hold no blanks and are not empty

---
 crates/sip-core/src/sdp_offer_answer.rs | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 668d488..ec93cd6 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -390,9 +390,12 @@ fn validate_address(address: &str) -> Result<(), NegotiationError> {
         )));
     }
 
-    if address.chars().any(|c| c.is_ascii_control()) {
+    if address
+        .chars()
+        .any(|c| c.is_ascii_control() || c.is_whitespace())
+    {
         return Err(NegotiationError::ValidationError(
-            "Address contains control characters".to_string(),
+            "Address contains control characters or blanks".to_string(),
         ));
     }
 
@@ -400,6 +403,12 @@ fn validate_address(address: &str) -> Result<(), NegotiationError> {
 }
 
 fn validate_username(username: &str) -> Result<(), NegotiationError> {
+    if username.is_empty() {
+        return Err(NegotiationError::ValidationError(
+            "Username cannot be empty".to_string(),
+        ));
+    }
+
     if username.len() > MAX_USERNAME_LENGTH {
         return Err(NegotiationError::ValidationError(format!(
             "Username too long (max {})",
@@ -407,9 +416,12 @@ fn validate_username(username: &str) -> Result<(), NegotiationError> {
         )));
     }
 
-    if username.chars().any(|c| c.is_ascii_control()) {
+    if username
+        .chars()
+        .any(|c| c.is_ascii_control() || c.is_whitespace())
+    {
         return Err(NegotiationError::ValidationError(
-            "Username contains control characters".to_string(),
+            "Username contains control characters or blanks".to_string(),
         ));
     }
 
@@ -430,9 +442,12 @@ fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
         )));
     }
 
-    if session_id.chars().any(|c| c.is_ascii_control()) {
+    if session_id
+        .chars()
+        .any(|c| c.is_ascii_control() || c.is_whitespace())
+    {
         return Err(NegotiationError::ValidationError(
-            "Session ID contains control characters".to_string(),
+            "Session ID contains control characters or blanks".to_string(),
         ));
     }
 
-- 
2.43.0


From beceabb154551eb5d1bab22ace7e31daf3909abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 119/132] fix: Replaces identifiers that would end the value
 when read again are refused

---
 crates/sip-core/src/replaces.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/sip-core/src/replaces.rs b/crates/sip-core/src/replaces.rs
index 196edcc..64a1280 100644
--- a/crates/sip-core/src/replaces.rs
+++ b/crates/sip-core/src/replaces.rs
@@ -345,6 +345,13 @@ fn validate_call_id(call_id: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    // Either would end the value when the header is read again.
+    if call_id.chars().any(|c| c.is_whitespace() || c == ';') {
+        return Err(ReplacesError::InvalidCallId(
+            "contains blanks or semicolons".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -366,6 +373,13 @@ fn validate_tag(tag: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    // Either would end the value when the header is read again.
+    if tag.chars().any(|c| c.is_whitespace() || c == ';') {
+        return Err(ReplacesError::InvalidTag(
+            "contains blanks or semicolons".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From b888f386fab991497507e1c8b8b948a34269210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:39 +0000
Subject: [PATCH 120/132] fix: parts given to Reason, Referred-By,
 Resource-Priority and Security headers that would end early when read again
 are refused

---
 crates/sip-core/src/reason.rs            | 10 ++++++++++
 crates/sip-core/src/referred_by.rs       | 10 ++++++++++
 crates/sip-core/src/resource_priority.rs | 14 ++++++++++++++
 crates/sip-core/src/security.rs          |  6 +++++-
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 42e3170..8b9ba51 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -441,6 +441,16 @@ fn validate_param_name(name: &str) -> Result<(), ReasonError> {
         ));
     }
 
+    // Any of these would end the name when the header is read again.
+    if name
+        .chars()
+        .any(|c| c.is_whitespace() || matches!(c, ';' | '=' | ',' | '"'))
+    {
+        return Err(ReasonError::InvalidParamName(
+            "contains delimiters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index 3ca1262..58f14c4 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -550,6 +550,16 @@ fn validate_param_name(name: &str) -> Result<(), ReferredByError> {
         ));
     }
 
+    // Any of these would end the name when the header is read again.
+    if name
+        .chars()
+        .any(|c| c.is_whitespace() || matches!(c, ';' | '=' | ',' | '"'))
+    {
+        return Err(ReferredByError::InvalidParamName(
+            "contains delimiters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/resource_priority.rs b/crates/sip-core/src/resource_priority.rs
index 18cb19a..8384768 100644
--- a/crates/sip-core/src/resource_priority.rs
+++ b/crates/sip-core/src/resource_priority.rs
@@ -306,6 +306,13 @@ fn validate_namespace(namespace: &str) -> Result<(), ResourcePriorityError> {
         ));
     }
 
+    // Either would end the namespace when the header is read again.
+    if namespace.contains(['.', ',']) {
+        return Err(ResourcePriorityError::InvalidNamespace(
+            "contains a dot or a comma".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -332,6 +339,13 @@ fn validate_priority(priority: &str) -> Result<(), ResourcePriorityError> {
         ));
     }
 
+    // It would end the priority when the header is read again.
+    if priority.contains(',') {
+        return Err(ResourcePriorityError::InvalidPriority(
+            "contains a comma".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 5b3e17a..348d24c 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -56,7 +56,11 @@ fn validate_mechanism_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name.chars().any(|c| c.is_control() || c.is_whitespace()) {
+    // A delimiter would end the name when the header is read again.
+    if name
+        .chars()
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '=' | ',' | '"'))
+    {
         return Err(SecurityError::ValidationError(
             "Mechanism name contains invalid characters".to_string(),
         ));
-- 
2.43.0


From 7ce761520d870270b1aea73e8eacaf66c4c8e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 121/132] fix: SIP URIs with raw angle brackets or quotes,
 which end a bracketed address, are refused

---
 crates/sip-core/src/uri.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a7176a0..0e29754 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -317,6 +317,13 @@ impl SipUri {
             ));
         }
 
+        // Inside a bracketed address these must be escaped (RFC 3986 §2).
+        if input.contains(['<', '>', '"']) {
+            return Err(UriError::InvalidFormat(
+                "contains angle brackets or quotes".to_string(),
+            ));
+        }
+
         if input.len() > MAX_URI_LENGTH {
             return Err(UriError::TooLong {
                 field: "URI",
-- 
2.43.0


From 703160785ab72b7fc7cc03819427f38005127214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:21 +0000
Subject: [PATCH 122/132] fix: Reason protocols with delimiters are refused and
 tel numbers given to a constructor are stored as read

---
 crates/sip-core/src/reason.rs  | 10 ++++++++++
 crates/sip-core/src/tel_uri.rs |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 8b9ba51..d3d074c 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -420,6 +420,16 @@ fn validate_protocol(protocol: &str) -> Result<(), ReasonError> {
         ));
     }
 
+    // Any of these would end the protocol when the header is read again.
+    if protocol
+        .chars()
+        .any(|c| c.is_whitespace() || matches!(c, ';' | ',' | '"'))
+    {
+        return Err(ReasonError::InvalidProtocol(
+            "contains delimiters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index ab49a3d..a67b7bc 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -326,6 +326,12 @@ impl TelUri {
         }
 
         let raw = SmolStr::new(format!("tel:{}", number));
+        // As read from text: without visual separators (RFC 3966 §5.1.1).
+        let number = if is_global {
+            normalize_global_number(&number)
+        } else {
+            number
+        };
 
         Ok(Self {
             raw,
-- 
2.43.0


From f6fae8a9507025c92d3478eff344f0e00d3ca63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 123/132] fix: Security parameter values that would end early
 when read again are refused

---
 crates/sip-core/src/security.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 348d24c..d8bb708 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -85,7 +85,7 @@ fn validate_param_name(name: &str) -> Result<(), SecurityError> {
 
     if name
         .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || c == ';' || c == '=' || c == ',')
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '=' | ',' | '"'))
     {
         return Err(SecurityError::ValidationError(
             "Parameter name contains invalid characters".to_string(),
@@ -109,9 +109,32 @@ fn validate_param_value(value: &str) -> Result<(), SecurityError> {
         ));
     }
 
+    // Any of these would end the value, or change it, when the header is read again.
+    if value.trim() != value || ends_early(value) {
+        return Err(SecurityError::ValidationError(
+            "Parameter value contains delimiters outside a quoted string".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
+/// True for a value with a separator outside quotes or with an open quoted string.
+fn ends_early(value: &str) -> bool {
+    let mut in_quotes = false;
+    let mut escape = false;
+    for ch in value.chars() {
+        match ch {
+            _ if escape => escape = false,
+            '\\' if in_quotes => escape = true,
+            '"' => in_quotes = !in_quotes,
+            ';' | ',' if !in_quotes => return true,
+            _ => {}
+        }
+    }
+    in_quotes
+}
+
 fn validate_q_value(q: f32) -> Result<(), SecurityError> {
     if !q.is_finite() {
         return Err(SecurityError::ValidationError(
-- 
2.43.0


From 115f6d502561711eb170325248af4751128d3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:20 +0000
Subject: [PATCH 124/132] fix: blanks around a tel number given to a
 constructor are no part of it

---
 crates/sip-core/src/tel_uri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index a67b7bc..7f109b3 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -309,7 +309,8 @@ impl TelUri {
     /// - Number is invalid or too long
     /// - Number format doesn't match is_global
     pub fn new(number: impl Into<SmolStr>, is_global: bool) -> Result<Self, TelUriError> {
-        let number = number.into();
+        // Blanks around the number are not part of it when it is read.
+        let number = SmolStr::new(number.into().trim());
         validate_telephone_number(&number)?;
 
         // Validate consistency
-- 
2.43.0


From 4bba4c36ba23f9d3c5c7bec9fdb7b7b9cbbe2fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 125/132] fix: parts given to SDP builders that would end early
 when read again are refused

---
 crates/sip-sdp/src/builder.rs |  7 +++--
 crates/sip-sdp/src/lib.rs     | 54 ++++++++++++++++++++++++++++-------
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/crates/sip-sdp/src/builder.rs b/crates/sip-sdp/src/builder.rs
index a9007ff..0573593 100644
--- a/crates/sip-sdp/src/builder.rs
+++ b/crates/sip-sdp/src/builder.rs
@@ -51,7 +51,7 @@ impl SessionDescriptionBuilder {
 
     /// Adds a session-level attribute with validation
     pub fn attribute(mut self, name: &str, value: Option<&str>) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_part(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH, &[':'])?;
         if let Some(val) = value {
             validate_field(val, "attribute_value", MAX_ATTRIBUTE_VALUE_LENGTH)?;
         }
@@ -90,12 +90,13 @@ impl SessionDescriptionBuilder {
         adjustment_time: &str,
         offset: &str,
     ) -> Result<Self, SdpError> {
-        validate_field(
+        validate_part(
             adjustment_time,
             "adjustment_time",
             MAX_ATTRIBUTE_NAME_LENGTH,
+            &[],
         )?;
-        validate_field(offset, "offset", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_part(offset, "offset", MAX_ATTRIBUTE_NAME_LENGTH, &[])?;
 
         if self.sdp.time_zones.len() >= MAX_TIME_ZONES {
             return Err(SdpError::TooManyItems {
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index ae150a2..adca099 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -76,6 +76,8 @@ pub enum SdpError {
     },
     /// Field contains control characters (CRLF injection)
     FieldContainsControlChars { field: &'static str },
+    /// Field contains characters that would end it when it is read again
+    FieldContainsDelimiters { field: &'static str },
     /// Too many items in collection (DoS prevention)
     TooManyItems {
         collection: &'static str,
@@ -99,6 +101,9 @@ impl std::fmt::Display for SdpError {
             SdpError::FieldContainsControlChars { field } => {
                 write!(f, "{} contains control characters (CRLF injection)", field)
             }
+            SdpError::FieldContainsDelimiters { field } => {
+                write!(f, "{} contains blanks or delimiters", field)
+            }
             SdpError::TooManyItems {
                 collection,
                 max,
@@ -144,6 +149,23 @@ fn validate_field(value: &str, field: &'static str, max_length: usize) -> Result
 }
 
 /// Validates a clock rate
+/// A field of a line with several fields: blanks, or one of `ends`, would end it early.
+fn validate_part(
+    value: &str,
+    field: &'static str,
+    max_length: usize,
+    ends: &[char],
+) -> Result<(), SdpError> {
+    validate_field(value, field, max_length)?;
+    if value
+        .chars()
+        .any(|c| c.is_whitespace() || ends.contains(&c))
+    {
+        return Err(SdpError::FieldContainsDelimiters { field });
+    }
+    Ok(())
+}
+
 fn validate_clock_rate(rate: u32) -> Result<(), SdpError> {
     if !(MIN_CLOCK_RATE..=MAX_CLOCK_RATE).contains(&rate) {
         return Err(SdpError::InvalidClockRate {
@@ -564,7 +586,7 @@ impl MediaDescription {
 
     /// Adds a format token (non-RTP or custom) with validation
     pub fn add_format_token(mut self, token: &str) -> Result<Self, SdpError> {
-        validate_field(token, "format_token", MAX_ENCODING_NAME_LENGTH)?;
+        validate_part(token, "format_token", MAX_ENCODING_NAME_LENGTH, &[])?;
 
         if self.formats.len() >= MAX_FORMATS_PER_MEDIA {
             return Err(SdpError::TooManyItems {
@@ -593,10 +615,15 @@ impl MediaDescription {
         encoding_params: Option<&str>,
     ) -> Result<Self, SdpError> {
         validate_payload_type(payload_type)?;
-        validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        validate_part(
+            encoding_name,
+            "encoding_name",
+            MAX_ENCODING_NAME_LENGTH,
+            &['/'],
+        )?;
         validate_clock_rate(clock_rate)?;
         if let Some(params) = encoding_params {
-            validate_field(params, "encoding_params", MAX_ENCODING_NAME_LENGTH)?;
+            validate_part(params, "encoding_params", MAX_ENCODING_NAME_LENGTH, &['/'])?;
         }
 
         // Replace-semantics: drop any previous rtpmap for this PT
@@ -652,7 +679,7 @@ impl MediaDescription {
 
     /// Adds a property attribute with validation
     pub fn add_property(mut self, name: &str) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_part(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH, &[':'])?;
 
         if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
             return Err(SdpError::TooManyItems {
@@ -669,7 +696,7 @@ impl MediaDescription {
 
     /// Adds a value attribute with validation
     pub fn add_attribute(mut self, name: &str, value: &str) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_part(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH, &[':'])?;
         validate_field(value, "attribute_value", MAX_ATTRIBUTE_VALUE_LENGTH)?;
 
         if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
@@ -745,10 +772,15 @@ impl MediaDescription {
         encoding_params: Option<&str>,
     ) -> Result<(), SdpError> {
         validate_payload_type(payload_type)?;
-        validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        validate_part(
+            encoding_name,
+            "encoding_name",
+            MAX_ENCODING_NAME_LENGTH,
+            &['/'],
+        )?;
         validate_clock_rate(clock_rate)?;
         if let Some(params) = encoding_params {
-            validate_field(params, "encoding_params", MAX_ENCODING_NAME_LENGTH)?;
+            validate_part(params, "encoding_params", MAX_ENCODING_NAME_LENGTH, &['/'])?;
         }
 
         // Count without the entries being replaced, so duplicate-pt
@@ -839,9 +871,9 @@ fn is_rtpmap_attr(attr: &Attribute, payload_type: u8) -> bool {
 impl Origin {
     /// Creates a new origin line with validation
     pub fn new(username: &str, session_id: &str, addr: &str) -> Result<Self, SdpError> {
-        validate_field(username, "username", MAX_USERNAME_LENGTH)?;
-        validate_field(session_id, "session_id", MAX_SESSION_ID_LENGTH)?;
-        validate_field(addr, "address", MAX_ADDRESS_LENGTH)?;
+        validate_part(username, "username", MAX_USERNAME_LENGTH, &[])?;
+        validate_part(session_id, "session_id", MAX_SESSION_ID_LENGTH, &[])?;
+        validate_part(addr, "address", MAX_ADDRESS_LENGTH, &[])?;
 
         Ok(Self {
             username: SmolStr::new(username),
@@ -861,7 +893,7 @@ impl Origin {
 impl Connection {
     /// Creates a new connection line with validation
     pub fn new(addr: &str) -> Result<Self, SdpError> {
-        validate_field(addr, "address", MAX_ADDRESS_LENGTH)?;
+        validate_part(addr, "address", MAX_ADDRESS_LENGTH, &[])?;
 
         Ok(Self {
             net_type: NetType::Internet,
-- 
2.43.0


From 0450bf46475f5d0667ef2c6b8a3d1d60dcdd070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:06 +0000
Subject: [PATCH 126/132] fix: time zones over all z= lines of a session
 description are bounded

---
 crates/sip-core/src/sdp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 2d388af..b925a5a 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -1488,7 +1488,8 @@ impl SdpSession {
                 'z' => {
                     let zones = parse_time_zones(line)?;
                     self.time_zones.extend(zones);
-                    // Security: Check time zones collection size (already checked in parse_time_zones)
+                    // Security: Check time zones collection size over all z= lines
+                    validate_collection_size(&self.time_zones, "z= time-zones", MAX_TIME_ZONES)?;
                 }
                 'k' => self.encryption_key = Some(parse_encryption_key(line)?),
                 'a' => {
-- 
2.43.0


From c9e5127df83b08b256410a001a9cbe684880a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:06 +0000
Subject: [PATCH 127/132] fix: a media line whose port count is followed by
 more is refused, not cut short

---
 crates/sip-core/src/sdp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index b925a5a..eac5bce 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -2651,6 +2651,9 @@ fn parse_media_line(line: &str) -> Result<MediaLineParsed, SdpError> {
 
     // Parse port and optional port count
     let port_parts: Vec<&str> = parts[1].split('/').collect();
+    if port_parts.len() > 2 {
+        return Err(SdpError::InvalidFormat("m="));
+    }
     let port = port_parts[0]
         .parse()
         .map_err(|_| SdpError::InvalidFormat("m="))?;
-- 
2.43.0


From 79bc70936f83255f9018422afc6b4588dc2213ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:22 +0000
Subject: [PATCH 128/132] fix: simultaneous session timer starts keep to the
 limit and never displace a refresh

---
 crates/sip-dialog/src/session_timer_manager.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index 9c25a01..a19a253 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -97,6 +97,10 @@ pub struct SessionTimerManager {
 
     /// Number of timers started so far
     generations: Arc<AtomicU64>,
+
+    /// Serializes starts, so that simultaneous ones cannot exceed the limit
+    /// or take the place of a timer being refreshed
+    start_lock: Arc<parking_lot::Mutex<()>>,
 }
 
 impl SessionTimerManager {
@@ -108,6 +112,7 @@ impl SessionTimerManager {
             event_tx: Arc::new(event_tx),
             event_rx: Arc::new(tokio::sync::Mutex::new(event_rx)),
             generations: Arc::new(AtomicU64::new(0)),
+            start_lock: Arc::new(parking_lot::Mutex::new(())),
         }
     }
 
@@ -125,6 +130,8 @@ impl SessionTimerManager {
     /// - Always emits `SessionExpired` at `session_expires` if not refreshed
     /// - Replaces any existing timer for this dialog
     pub fn start_timer(&self, dialog_id: DialogId, session_expires: Duration, is_refresher: bool) {
+        let _guard = self.start_lock.lock();
+
         // Cancel existing timer if present
         self.stop_timer(&dialog_id);
         if self.tasks.len() >= MAX_SESSION_TIMERS {
-- 
2.43.0


From 456e8dd0cc24fe2073ffe09a4578ad4b90f6323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:54 +0000
Subject: [PATCH 129/132] fix: a Geolocation header with an invalid part is
 refused, not read without it

---
 crates/sip-core/src/geolocation.rs    |  1 +
 crates/sip-parse/src/header_values.rs | 49 +++++++++++++++------------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/crates/sip-core/src/geolocation.rs b/crates/sip-core/src/geolocation.rs
index 22be1e7..cc5d502 100644
--- a/crates/sip-core/src/geolocation.rs
+++ b/crates/sip-core/src/geolocation.rs
@@ -25,6 +25,7 @@ pub enum GeolocationError {
     InvalidParamValue(String),
     InvalidErrorCode(String),
     InvalidDescription(String),
+    InvalidValue(String),
     DuplicateParam(String),
     EmptyValues,
 }
diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 97df11f..ad8643f 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -274,14 +274,14 @@ pub fn parse_geolocation_header(headers: &Headers) -> Result<GeolocationHeader,
             if part.is_empty() {
                 continue;
             }
-            if let Some(name_addr) = parse_name_addr(&SmolStr::new(part)) {
-                let mut value = GeolocationValue::new(name_addr.uri().clone());
-                for (name, param_value) in name_addr.params_map() {
-                    let _ =
-                        value.add_param(name.as_str(), param_value.as_ref().map(|s| s.as_str()));
-                }
-                values.push(value);
+            let name_addr = parse_name_addr(&SmolStr::new(part)).ok_or_else(|| {
+                GeolocationError::InvalidValue("invalid Geolocation name-addr".to_string())
+            })?;
+            let mut value = GeolocationValue::new(name_addr.uri().clone());
+            for (name, param_value) in name_addr.params_map() {
+                value.add_param(name.as_str(), param_value.as_ref().map(|s| s.as_str()))?;
             }
+            values.push(value);
         }
     }
     GeolocationHeader::new(values)
@@ -294,9 +294,7 @@ pub fn parse_geolocation_error(
     let code = parts.next().map(|c| c.trim()).filter(|c| !c.is_empty());
     let mut header = GeolocationErrorHeader::new();
     if let Some(code) = code {
-        if let Ok(updated) = header.clone().with_code(code) {
-            header = updated;
-        }
+        header = header.with_code(code)?;
     }
     for part in parts {
         let part = part.trim();
@@ -307,14 +305,19 @@ pub fn parse_geolocation_error(
             let key = name.trim().to_ascii_lowercase();
             let value = unquote(val.trim());
             if key == "reason" {
-                if let Ok(updated) = header.clone().with_description(value.as_str()) {
-                    header = updated;
+                if header.description().is_some() {
+                    return Err(GeolocationError::DuplicateParam(key));
                 }
+                header = header.with_description(value.as_str())?;
+            }
+            match header.add_param(&key, Some(value.as_str())) {
+                // Quoted text other than the reason is not kept
+                Err(GeolocationError::InvalidParamValue(_)) => {}
+                added => added?,
             }
-            let _ = header.add_param(&key, Some(value.as_str()));
         } else {
             let key = part.to_ascii_lowercase();
-            let _ = header.add_param(&key, None);
+            header.add_param(&key, None)?;
         }
     }
     Ok(header)
@@ -324,13 +327,17 @@ pub fn parse_geolocation_routing(
     value: &SmolStr,
 ) -> Result<GeolocationRoutingHeader, GeolocationError> {
     let mut header = GeolocationRoutingHeader::new();
-    let params = parse_params(value.as_str()).ok_or(GeolocationError::TooManyParams {
-        max: MAX_PARAMS,
-        actual: MAX_PARAMS + 1,
-    })?;
-    for (name, param_value) in params.iter() {
-        let value_str = param_value.as_ref().map(|s| s.as_str());
-        let _ = header.add_param(name.as_str(), value_str);
+    for part in split_unquoted_semicolons(value) {
+        let part = part.trim();
+        if part.is_empty() {
+            continue;
+        }
+        match part.split_once('=') {
+            Some((name, val)) => {
+                header.add_param(name.trim(), Some(unquote(val.trim()).as_str()))?
+            }
+            None => header.add_param(part, None)?,
+        }
     }
     Ok(header)
 }
-- 
2.43.0


From 3512c39d87d60e763391a8de4e6c0242d79b8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:45 +0000
Subject: [PATCH 130/132] fix: an address header that repeats a parameter is
 refused, as built ones are

---
 crates/sip-core/src/route.rs          | 23 +++++++++++++----------
 crates/sip-parse/src/header_values.rs | 19 +++++++++++--------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/crates/sip-core/src/route.rs b/crates/sip-core/src/route.rs
index 930a961..3a0bb66 100644
--- a/crates/sip-core/src/route.rs
+++ b/crates/sip-core/src/route.rs
@@ -327,7 +327,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
             let display = input[..start].trim();
             let uri = input[start + 1..end].trim();
             let params = parse_params(input[end + 1..].trim())
-                .ok_or_else(|| RouteError::ParseError("too many parameters".to_string()))?;
+                .ok_or_else(|| RouteError::ParseError("too many or repeated parameters".to_string()))?;
             let uri =
                 Uri::parse(uri).map_err(|_| RouteError::ParseError("invalid uri".to_string()))?;
             NameAddr::new(
@@ -345,7 +345,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
             let (uri_part, param_part) = input.split_once(';').unwrap_or((input, ""));
             let uri = Uri::parse(uri_part.trim()).map_err(|_| RouteError::MissingUri)?;
             let params = parse_params(param_part)
-                .ok_or_else(|| RouteError::ParseError("too many parameters".to_string()))?;
+                .ok_or_else(|| RouteError::ParseError("too many or repeated parameters".to_string()))?;
             NameAddr::new(None, uri, params)
                 .map_err(|err| RouteError::InvalidNameAddr(err.to_string()))
         }
@@ -356,7 +356,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
 const MAX_PARAMS: usize = 64;
 
 /// Parses parameters with bounds checking to prevent memory exhaustion.
-/// Returns None if there are too many parameters (>64).
+/// Returns None if there are too many parameters (>64) or a repeated one.
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
     for raw in split_unquoted(input, ';') {
@@ -370,13 +370,16 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
             return None;
         }
 
-        if let Some((name, value)) = raw.split_once('=') {
-            params.insert(
-                SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(unquote(value.trim())),
-            );
-        } else {
-            params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
+        let (name, value) = match raw.split_once('=') {
+            Some((name, value)) => (name.trim(), Some(unquote(value.trim()))),
+            None => (raw, None),
+        };
+        // RFC 3261 §7.3.1: no parameter name may appear more than once
+        if params
+            .insert(SmolStr::new(name.to_ascii_lowercase()), value)
+            .is_some()
+        {
+            return None;
         }
     }
     Some(params)
diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index ad8643f..0ef93b7 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -453,7 +453,7 @@ fn parse_name_addr(value: &SmolStr) -> Option<NameAddr> {
 const MAX_PARAMS: usize = 64;
 
 /// Parses parameters with bounds checking to prevent memory exhaustion.
-/// Returns None if there are too many parameters (>64).
+/// Returns None if there are too many parameters (>64) or a repeated one.
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
     for raw in split_unquoted_semicolons(input) {
@@ -467,13 +467,16 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
             return None;
         }
 
-        if let Some((name, value)) = raw.split_once('=') {
-            params.insert(
-                SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(unquote(value.trim())),
-            );
-        } else {
-            params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
+        let (name, value) = match raw.split_once('=') {
+            Some((name, value)) => (name.trim(), Some(unquote(value.trim()))),
+            None => (raw, None),
+        };
+        // RFC 3261 §7.3.1: no parameter name may appear more than once
+        if params
+            .insert(SmolStr::new(name.to_ascii_lowercase()), value)
+            .is_some()
+        {
+            return None;
         }
     }
     Some(params)
-- 
2.43.0


From 95d236b4e1259d7192f78a20cbc4fcbb36bdeb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:55 +0000
Subject: [PATCH 131/132] fix: a URI that repeats a parameter is refused, not
 read with one of the values

---
 crates/sip-core/src/tel_uri.rs | 18 ++++++++++++++++--
 crates/sip-core/src/uri.rs     | 21 +++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 7f109b3..808a50b 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -413,6 +413,7 @@ impl TelUri {
                 ));
             }
 
+            let repeated;
             if let Some((key, value)) = param.split_once('=') {
                 validate_parameter_name(key)?;
                 validate_parameter_value(value)?;
@@ -426,10 +427,23 @@ impl TelUri {
                     phone_context = Some(value_smol.clone());
                 }
 
-                parameters.insert(key_smol, Some(value_smol));
+                repeated = parameters.insert(key_smol, Some(value_smol)).is_some();
             } else {
                 validate_parameter_name(param)?;
-                parameters.insert(SmolStr::new(param.to_ascii_lowercase()), None);
+                if param.eq_ignore_ascii_case("phone-context") {
+                    return Err(TelUriError::InvalidPhoneContext(
+                        "phone-context requires a value".to_string(),
+                    ));
+                }
+                repeated = parameters
+                    .insert(SmolStr::new(param.to_ascii_lowercase()), None)
+                    .is_some();
+            }
+            // RFC 3966 §3: a parameter name must not appear more than once
+            if repeated {
+                return Err(TelUriError::InvalidParameter(
+                    "repeated parameter".to_string(),
+                ));
             }
         }
 
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 0e29754..8168e42 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -374,10 +374,10 @@ impl SipUri {
                 let v = v.trim();
                 validate_param_name(k)?;
                 validate_param_value(v)?;
-                params.insert(SmolStr::new(k.to_ascii_lowercase()), Some(SmolStr::new(v)));
+                insert_param(&mut params, k, Some(SmolStr::new(v)))?;
             } else {
                 validate_param_name(param)?;
-                params.insert(SmolStr::new(param.to_ascii_lowercase()), None);
+                insert_param(&mut params, param, None)?;
             }
         }
 
@@ -822,6 +822,23 @@ fn push_escaped_user(out: &mut String, user: &str) {
     }
 }
 
+/// Adds a parameter; a name may appear only once (RFC 3261 §19.1.1).
+fn insert_param(
+    params: &mut BTreeMap<SmolStr, Option<SmolStr>>,
+    name: &str,
+    value: Option<SmolStr>,
+) -> Result<(), UriError> {
+    if params
+        .insert(SmolStr::new(name.to_ascii_lowercase()), value)
+        .is_some()
+    {
+        return Err(UriError::InvalidParameter(format!(
+            "repeated parameter {name:?}"
+        )));
+    }
+    Ok(())
+}
+
 fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
     let mut out = String::new();
     out.push_str(if uri.sips { "sips:" } else { "sip:" });
-- 
2.43.0


From a85ae45de45e05d00e30936244f159837cd3873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:43 +0000
Subject: [PATCH 132/132] fix: editing a URI keeps every header field it
 carries, also those of one name

---
 crates/sip-core/src/uri.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 8168e42..1349d1d 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -865,17 +865,12 @@ fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
             out.push_str(val.as_str());
         }
     }
+    // Header fields are never edited one by one; a name may repeat, so the
+    // text is kept rather than the map of last values.
     if !uri.headers.is_empty() {
-        out.push('?');
-        let mut first = true;
-        for (key, value) in &uri.headers {
-            if !first {
-                out.push('&');
-            }
-            first = false;
-            out.push_str(key.as_str());
-            out.push('=');
-            out.push_str(value.as_str());
+        if let Some((_, text)) = uri.raw.split_once('?') {
+            out.push('?');
+            out.push_str(text);
         }
     }
     SmolStr::new(out)
-- 
2.43.0

