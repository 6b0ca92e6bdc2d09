From ed4df7367e55c0ac420bd1d93479579d5c5067df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 01/34] fix: no overflow when adding the inflight timeout to
 the last sent time

---
 akasa-core/src/protocols/mqtt/pending.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index e6bff72..20dfcb5 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -118,13 +118,13 @@ impl<P: Debug> PendingPackets<P> {
             let packet_status = self.packets.get_mut(idx).expect("packet");
             match packet_status {
                 PendingPacketStatus::New { last_sent, .. } => {
-                    if now_ts >= self.timeout + *last_sent {
+                    if now_ts >= self.timeout.saturating_add(*last_sent) {
                         next_idx = Some(idx);
                         break;
                     }
                 }
                 PendingPacketStatus::Pubrec { last_sent, .. } => {
-                    if now_ts >= self.timeout + *last_sent {
+                    if now_ts >= self.timeout.saturating_add(*last_sent) {
                         next_idx = Some(idx);
                         break;
                     }
-- 
2.43.0


From f26dc565b850964bc273f37f42ec48362a4e6e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 02/34] fix: leaving a shared group as its last member keeps no
 stale index entry

---
 akasa-core/src/protocols/mqtt/route.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..5bccd91 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -272,7 +272,9 @@ impl SharedClients {
             } else {
                 let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                if last_client_id != *item_key {
+                    self.index.insert(last_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From d2c324096bfd0581807a00649bbc2c77af77ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 03/34] fix: an unspecified address family or transport in a
 PROXY header is an error, not a panic

---
 akasa-core/src/server/proxy.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..af1e013 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,6 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +149,6 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From 5e4f3a2987b1caab5a47753d60e03ce713d34ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 04/34] fix: the SCRAM server checks the proof over the
 client's first message as it was sent

---
 akasa-core/src/protocols/scram/server.rs | 47 +++++++++++++-----------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..9f44d43 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -1,5 +1,3 @@
-use std::borrow::Cow;
-
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD;
 use rand::Rng;
@@ -25,11 +23,13 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
         nonce: String,
-        gs2header: Cow<'static, str>,
+        gs2header: String,
         client_first_bare: String,
         server_first: String,
         authcid: String,
@@ -44,22 +44,25 @@ impl ScramServer {
     }
 
     pub fn decode_client_first(&mut self, data: &str) -> Result<(), Error> {
-        let mut parts = data.split(',');
+        let mut header = data.splitn(3, ',');
 
-        let token = parts.next().unwrap_or("");
+        let token = header.next().unwrap_or("");
         match token.chars().next() {
             Some('p') => return Err(Error::UnsupportedExtension),
             Some(c) if (c == 'n' || c == 'y') && token.len() == 1 => {}
             _ => return Err(Error::Protocol(Kind::InvalidField(Field::ChannelBinding))),
         }
 
-        let authzid = match parts.next() {
+        let authz_field = header.next();
+        let authzid = match authz_field {
             Some("") => None,
             Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
 
+        let client_first_bare = header.next().unwrap_or("");
+        let mut parts = client_first_bare.split(',');
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
@@ -67,6 +70,8 @@ impl ScramServer {
             authcid,
             authzid,
             client_nonce,
+            gs2header: format!("{},{},", token, authz_field.unwrap_or("")),
+            client_first_bare: client_first_bare.to_owned(),
         };
         Ok(())
     }
@@ -94,17 +99,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,11 +124,6 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
-- 
2.43.0


From b02b5b0f1a7c71d57e1ff6e5e871c41c18b81d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 05/34] fix: SCRAM user names with ',' or '=' are escaped by
 the client and decoded by the server

---
 akasa-core/src/protocols/scram/client.rs | 14 ++++++------
 akasa-core/src/protocols/scram/server.rs | 27 ++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 2cd6cad..96764e7 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -42,7 +42,7 @@ impl<'a> ScramClient<'a> {
         rng: &mut R,
     ) -> Self {
         let gs2header: Cow<'static, str> = match authzid {
-            Some(az) => format!("n,a={},", az).into(),
+            Some(az) => format!("n,a={},", escape(az)).into(),
             None => "n,,".into(),
         };
         let nonce: String = Uniform::try_from(33..125)
@@ -74,12 +74,7 @@ impl<'a> ScramClient<'a> {
             }
         };
 
-        let escaped: Cow<'a, str> = if authcid.chars().any(|c| c == ',' || c == '=') {
-            authcid.into()
-        } else {
-            authcid.replace(',', "=2C").replace('=', "=3D").into()
-        };
-        let client_first_bare = format!("n={},r={}", escaped, nonce);
+        let client_first_bare = format!("n={},r={}", escape(authcid), nonce);
         let client_first = format!("{}{}", gs2header, client_first_bare);
 
         *self = ScramClient::WaitingForServerFirst {
@@ -149,6 +144,11 @@ impl<'a> ScramClient<'a> {
     }
 }
 
+/// Encodes a `saslname` (RFC 5802 section 5.1): ',' is `=2C` and '=' is `=3D`.
+fn escape(name: &str) -> String {
+    name.replace('=', "=3D").replace(',', "=2C")
+}
+
 fn parse_server_first(data: &str) -> Result<(&str, Vec<u8>, NonZeroU32), Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::Nonce)));
diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 9f44d43..28146f3 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -56,14 +56,19 @@ impl ScramServer {
         let authz_field = header.next();
         let authzid = match authz_field {
             Some("") => None,
-            Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
+            Some(p) if p.as_bytes().starts_with(b"a=") => {
+                Some(unescape(&p[2..], Field::Authzid)?)
+            }
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
 
         let client_first_bare = header.next().unwrap_or("");
         let mut parts = client_first_bare.split(',');
-        let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
+        let authcid = unescape(
+            &next_field(&mut parts, Field::Authcid, b"n=")?,
+            Field::Authcid,
+        )?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
         *self = ScramServer::WaitingForPassword {
@@ -205,6 +210,24 @@ impl ScramServer {
     }
 }
 
+/// Decodes a `saslname` (RFC 5802 section 5.1): `=2C` is ',' and `=3D` is '='.
+fn unescape(name: &str, field: Field) -> Result<String, Error> {
+    let mut parts = name.split('=');
+    let mut output = parts.next().unwrap_or("").to_owned();
+    for part in parts {
+        if let Some(rest) = part.strip_prefix("2C") {
+            output.push(',');
+            output.push_str(rest);
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            output.push('=');
+            output.push_str(rest);
+        } else {
+            return Err(Error::Protocol(Kind::InvalidField(field)));
+        }
+    }
+    Ok(output)
+}
+
 fn next_field(
     parts: &mut impl Iterator<Item = impl AsRef<str>>,
     field: Field,
-- 
2.43.0


From f96e216dd70fa2b37e595490877f88d6c905b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 06/34] fix: a server-final message starting with a multi-byte
 character is an error, not a panic

---
 akasa-core/src/protocols/scram/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 96764e7..dba54fa 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -180,11 +180,11 @@ fn parse_server_final(data: &str) -> Result<Vec<u8>, Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)));
     }
-    match &data[..2] {
-        "v=" => STANDARD
+    match &data.as_bytes()[..2] {
+        b"v=" => STANDARD
             .decode(&data.as_bytes()[2..])
             .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
-        "e=" => Err(Error::Authentication(data[2..].to_string())),
+        b"e=" => Err(Error::Authentication(data[2..].to_string())),
         _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
     }
 }
-- 
2.43.0


From 453a1548ac30b54e2f6fc6d349c4744a9a25e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 07/34] fix: the SCRAM server still knows the client's identity
 after it authenticated

---
 akasa-core/src/protocols/scram/server.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 28146f3..5de4487 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -35,6 +35,10 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
     },
+    Authenticated {
+        authcid: String,
+        authzid: Option<String>,
+    },
     Done,
 }
 
@@ -84,7 +88,8 @@ impl ScramServer {
     pub fn authcid(&self) -> Option<&str> {
         match self {
             ScramServer::WaitingForPassword { authcid, .. }
-            | ScramServer::WaitingForClientFinal { authcid, .. } => Some(authcid),
+            | ScramServer::WaitingForClientFinal { authcid, .. }
+            | ScramServer::Authenticated { authcid, .. } => Some(authcid),
             _ => None,
         }
     }
@@ -92,7 +97,8 @@ impl ScramServer {
     pub fn authzid(&self) -> Option<Option<&str>> {
         match self {
             ScramServer::WaitingForPassword { authzid, .. }
-            | ScramServer::WaitingForClientFinal { authzid, .. } => Some(authzid.as_deref()),
+            | ScramServer::WaitingForClientFinal { authzid, .. }
+            | ScramServer::Authenticated { authzid, .. } => Some(authzid.as_deref()),
             _ => None,
         }
     }
@@ -204,7 +210,10 @@ impl ScramServer {
                 AuthenticationStatus::NotAuthorized,
                 format!("e=User '{}' not authorized to act as '{}'", authcid, az),
             ),
-            _ => (AuthenticationStatus::Authenticated, server_sig),
+            authzid => {
+                *self = ScramServer::Authenticated { authcid, authzid };
+                (AuthenticationStatus::Authenticated, server_sig)
+            }
         };
         Ok((status, message))
     }
-- 
2.43.0


From 7eb2892428e68a7ff0db99d948d3ed5c04bb0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 08/34] fix: a second SCRAM client-first message is refused
 instead of restarting the exchange

---
 akasa-core/src/protocols/scram/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 5de4487..cb110e5 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -48,6 +48,9 @@ impl ScramServer {
     }
 
     pub fn decode_client_first(&mut self, data: &str) -> Result<(), Error> {
+        if !matches!(self, ScramServer::New) {
+            return Err(Error::InvalidState);
+        }
         let mut header = data.splitn(3, ',');
 
         let token = header.next().unwrap_or("");
-- 
2.43.0


From 7ad14889a1bfcf4e692f63b2568f532f89488ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 09/34] fix: a password file with a hash of the wrong length is
 refused

A truncated PBKDF2 hash was compared only over the bytes present, so a
damaged line could let many passwords in.
---
 akasa-core/src/protocols/mqtt/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 28b74b5..9b0f947 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -116,6 +116,14 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
                     (salt, hashed_password)
                 }
             };
+            let hash_len = match hash_algorithm {
+                HashAlgorithm::Sha256 | HashAlgorithm::Sha256Pkbdf2 { .. } => SHA256_OUTPUT_LEN,
+                HashAlgorithm::Sha512 | HashAlgorithm::Sha512Pkbdf2 { .. } => SHA512_OUTPUT_LEN,
+            };
+            if hashed_password.len() != hash_len {
+                log::error!("invalid hashed password (line#{}): {}", line_num, line);
+                return Err(io::ErrorKind::InvalidData.into());
+            }
             let item = AuthPassword {
                 hash_algorithm,
                 hashed_password,
-- 
2.43.0


From 5ea4a7124d66757ea9c5a3fe03bfa489fd4efaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 10/34] fix: a user name the password file cannot hold is
 refused instead of written

A name with a line break or leading white space came back as another
name. The text is made before the file is overwritten, so that a refused
name leaves the file as it was.
---
 akasa-core/src/protocols/mqtt/auth.rs |  5 +++++
 akasa/src/main.rs                     | 10 ++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 9b0f947..5f5bffd 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -145,6 +145,11 @@ pub fn dump_passwords<W: Write>(
     let mut writer = BufWriter::new(output);
     for item in passwords.iter() {
         let username = item.key();
+        // one line per user, of which `load_passwords` strips leading white space
+        if username.contains('\n') || username.starts_with(char::is_whitespace) {
+            log::error!("user name can not be stored: {:?}", username);
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
         let AuthPassword {
             hash_algorithm,
             hashed_password,
diff --git a/akasa/src/main.rs b/akasa/src/main.rs
index 6c52a1b..b6fdd7f 100644
--- a/akasa/src/main.rs
+++ b/akasa/src/main.rs
@@ -176,15 +176,17 @@ fn main() -> anyhow::Result<()> {
                     salt,
                 },
             );
-            let file = fs::File::create(&path)?;
-            dump_passwords(&file, &auth_passwords)?;
+            let mut content = Vec::new();
+            dump_passwords(&mut content, &auth_passwords)?;
+            fs::write(&path, content)?;
             println!("add/update user={username} to {path:?}");
         }
         Commands::RemovePassword { path, username } => {
             let auth_passwords = load_passwords(&fs::File::open(&path)?)?;
             if auth_passwords.remove(&username).is_some() {
-                let file = fs::File::create(&path)?;
-                dump_passwords(&file, &auth_passwords)?;
+                let mut content = Vec::new();
+                dump_passwords(&mut content, &auth_passwords)?;
+                fs::write(&path, content)?;
                 println!("removed user={username} from {path:?}");
             } else {
                 println!("user={username} not found");
-- 
2.43.0


From 25566bdc395db7fdaa8dd53dd9c6102bf2ae16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 11/34] fix: a clock set back no longer breaks message expiry

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d379405..a1efca7 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -176,12 +176,13 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 let now_ts = get_unix_ts();
                 let mut message_expiry_interval = None;
                 if let Some(value) = packet.properties.message_expiry_interval {
-                    let passed_secs = now_ts - *added_at;
+                    let passed_secs = now_ts.saturating_sub(*added_at);
                     if *last_sent == 0 && passed_secs >= value as u64 {
                         expired_packets.push(*pid);
                         continue;
                     }
-                    message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));
+                    message_expiry_interval =
+                        Some(u64::from(value).saturating_sub(passed_secs) as u32);
                 }
                 let qos_pid = match packet.qos {
                     QoS::Level0 => QosPid::Level0,
-- 
2.43.0


From 3ded931c5a0445e43cb298ced067ed28184a83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 12/34] fix: publishing does not panic when the last subscriber
 leaves at the same time

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..6b6fcd1 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -195,7 +195,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // The filter is gone when its last subscriber left in the meantime
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..20aec4f 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -350,7 +350,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // The filter is gone when its last subscriber left in the meantime
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From fe5c21ef0ac468ecdeab2e401ade86d0287d3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 13/34] fix: a QoS 2 message whose first copy was lost is
 delivered

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 6 +++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 6b6fcd1..a8573a9 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -47,6 +47,9 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // A QoS 2 message re-sent before its PUBREL must not be delivered again.
+    // The dup flag alone doesn't tell: the first copy may never have arrived.
+    let mut delivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -65,13 +68,14 @@ topic name : {}
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            delivered = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !delivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 20aec4f..cbda207 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,9 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // A QoS 2 message re-sent before its PUBREL must not be delivered again.
+    // The dup flag alone doesn't tell: the first copy may never have arrived.
+    let mut delivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -147,6 +150,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            delivered = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,7 +164,7 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !delivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         let properties = &mut packet.properties;
         properties.topic_alias = None;
-- 
2.43.0


From 0fe3b8e6bebdeeaa830d19be4c3ab4b9f90c6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:08 +0000
Subject: [PATCH 14/34] fix: the online count is not changed by take-overs and
 failed take-overs

---
 akasa-core/src/state.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..2b1793a 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 
 use std::io;
+use std::mem;
 use std::num::NonZeroU32;
 
 use std::sync::atomic::{AtomicU64, Ordering};
@@ -122,6 +123,17 @@ impl GlobalState {
         }
     }
 
+    // When a client taken over an online or offline session
+    fn set_client_online(&self, client_id: ClientId) {
+        let _guard = self.next_client_id.lock();
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
+            let old_online = mem::replace(&mut pair.value_mut().1, true);
+            if !old_online {
+                self.online_clients.fetch_add(1, Ordering::AcqRel);
+            }
+        }
+    }
+
     pub fn get_client_normal_sender(
         &self,
         client_id: &ClientId,
@@ -146,20 +158,17 @@ impl GlobalState {
         client_identifier: &str,
         protocol: Protocol,
     ) -> io::Result<AddClientReceipt> {
-        let control_sender = {
+        let (old_id, control_sender) = {
             let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
             let client_id_opt: Option<ClientId> = self
                 .client_identifier_map
                 .get(client_identifier)
                 .map(|pair| *pair.value());
             if let Some(old_id) = client_id_opt {
-                if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
-                }
-                self.get_client_control_sender(&old_id).unwrap()
+                (old_id, self.get_client_control_sender(&old_id).unwrap())
             } else {
                 let client_id = *next_client_id;
+                self.online_clients.fetch_add(1, Ordering::AcqRel);
                 self.client_id_map
                     .insert(client_id, (client_identifier.to_string(), true));
                 self.client_identifier_map
@@ -197,6 +206,7 @@ impl GlobalState {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
             })?;
+            self.set_client_online(old_id);
             Ok(AddClientReceipt::PresentV3(session_state))
         } else {
             let (sender, receiver) = bounded(1);
@@ -211,6 +221,7 @@ impl GlobalState {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
             })?;
+            self.set_client_online(old_id);
             Ok(AddClientReceipt::PresentV5(session_state))
         }
     }
-- 
2.43.0


From 2cbabb734a91e9eef973ebae6a0e2de6217fce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 15/34] fix: the after connect hook follows its own setting

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..c1c1918 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -141,7 +141,7 @@ async fn handle_online<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(&mut session, session_present, hook_handler, global).await?;
     }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..cf21849 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -269,7 +269,7 @@ async fn handle_online<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(&mut session, session_present, hook_handler, global).await?;
     }
 
-- 
2.43.0


From 786b030ed1c300af9aa7208cbebb5d9cb472c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:40 +0000
Subject: [PATCH 16/34] fix: a v3 client refused by the before connect hook is
 told the reason

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index c1c1918..31fd1bb 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -10,7 +10,7 @@ use hashbrown::HashMap;
 use mqtt_proto::{
     Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
     v3::{
-        Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
+        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
         SubscribeReturnCode, Unsubscribe,
     },
 };
@@ -129,7 +129,7 @@ async fn handle_online<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(peer, &packet, hook_handler, global).await?;
+        before_connect_hook(&session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
     let session_present =
@@ -642,7 +642,9 @@ fn handle_normal(
     }
 }
 
-async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
+async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &Session,
+    conn: &mut T,
     peer: SocketAddr,
     packet: &Connect,
     hook_handler: &H,
@@ -657,6 +659,8 @@ async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
         _ => panic!("invalid response"),
     };
     if code != ConnectReturnCode::Accepted {
+        let rv_packet = Connack::new(false, code);
+        write_packet(session.client_id, conn, &rv_packet.into()).await?;
         return Err(io::ErrorKind::InvalidData.into());
     }
     Ok(())
-- 
2.43.0


From 362d44fe80222354ab046cb14d32b7f9e9ff302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 17/34] fix: a v5 CONNECT refused because of its will leaves no
 client behind

---
 .../src/protocols/mqtt/v5/packet/connect.rs   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..a10e73a 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -220,6 +220,21 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     conn: &mut T,
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
+    if let Some(will) = session.last_will.as_ref() {
+        let reason_code = if will.retain && !global.config.retain_available {
+            ConnectReasonCode::RetainNotSupported
+        } else if will.qos > global.config.max_allowed_qos() {
+            ConnectReasonCode::QoSNotSupported
+        } else {
+            ConnectReasonCode::Success
+        };
+        if reason_code != ConnectReasonCode::Success {
+            let err_pkt = build_error_connack(session, false, reason_code, "");
+            write_packet(session.client_id, conn, &err_pkt).await?;
+            return Ok(false);
+        }
+    }
+
     let mut session_present = false;
     match global
         .add_client(&session.client_identifier, session.protocol)
@@ -319,28 +334,15 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     }
     // * TODO ServerReference
 
-    let reason_code = if let Some(will) = session.last_will.as_ref() {
-        if will.retain && !global.config.retain_available {
-            ConnectReasonCode::RetainNotSupported
-        } else if will.qos > global.config.max_allowed_qos() {
-            ConnectReasonCode::QoSNotSupported
-        } else {
-            ConnectReasonCode::Success
-        }
-    } else {
-        ConnectReasonCode::Success
-    };
     let rv_packet = Connack {
         session_present,
-        reason_code,
+        reason_code: ConnectReasonCode::Success,
         properties: connack_properties,
     };
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
 
-    if reason_code == ConnectReasonCode::Success {
-        session.connected = true;
-        session.connected_time = Some(Instant::now());
-    }
+    session.connected = true;
+    session.connected_time = Some(Instant::now());
     Ok(session_present)
 }
 
-- 
2.43.0


From a0f36b1b77124e3921117a4f2e6aa627b6a20c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:16 +0000
Subject: [PATCH 18/34] fix: the subscriptions of a discarded session leave the
 routing table

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..8c87432 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -133,6 +133,9 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index a10e73a..ad3bbd5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -262,6 +262,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
-- 
2.43.0


From 1416529c42a6ea4062e039d2e1b02e0535ac4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:21 +0000
Subject: [PATCH 19/34] fix: messages accepted just before a take-over are
 still forwarded

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 8c87432..e9947ea 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -117,6 +117,9 @@ clean session : {}
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // Messages published by this client but not yet handed to all receivers
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_session && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index ad3bbd5..231f467 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -246,6 +246,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // Messages published by this client but not yet handed to all receivers
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_start && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
-- 
2.43.0


From 43ab8944f5e9d47687a6181c3036049ca34849e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 20/34] fix: an error after a client was registered no longer
 leaves it behind

---
 akasa-core/src/protocols/mqtt/v3/message.rs   | 85 +++++++++++------
 .../src/protocols/mqtt/v3/packet/connect.rs   |  6 +-
 akasa-core/src/protocols/mqtt/v5/message.rs   | 93 +++++++++++++------
 .../src/protocols/mqtt/v5/packet/connect.rs   |  7 +-
 4 files changed, 129 insertions(+), 62 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 31fd1bb..d197695 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -132,22 +132,31 @@ async fn handle_online<
         before_connect_hook(&session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
-    let session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let connect_result =
+        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await;
 
     if !session.connected {
         log::info!("{} not connected", session.peer);
-        return Err(io::ErrorKind::InvalidData.into());
+        return Err(connect_result
+            .err()
+            .unwrap_or_else(|| io::ErrorKind::InvalidData.into()));
     }
 
-    // Run after connect hook
-    if global.config.hook.enable_after_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+    // The client is registered, so an error must not skip the end of the session
+    let mut io_error = match connect_result {
+        Ok(session_present) => {
+            after_connect(
+                &mut session,
+                session_present,
+                &mut conn,
+                hook_handler,
+                global,
+            )
+            .await
+        }
+        Err(err) => Err(err),
     }
+    .err();
 
     let receiver = receiver.expect("receiver");
     log::info!(
@@ -158,29 +167,36 @@ async fn handle_online<
     );
 
     let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+    if io_error.is_none() {
+        let online_loop = OnlineLoop::new(
+            &mut session,
+            global,
+            hook_handler,
+            &receiver,
+            receiver.control.stream(),
+            receiver.normal.stream(),
+            &mut conn,
+            &mut taken_over,
+            PollPacketState::default(),
+        );
+        io_error = online_loop.await;
+    }
+    if global.config.hook.enable_after_disconnect
+        && let Err(err) =
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+    {
+        io_error.get_or_insert(err);
     }
     if taken_over {
-        return Ok(None);
+        return io_error.map_or(Ok(None), Err);
     }
 
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        handle_will(&mut session, global).await?;
+        if let Err(err) = handle_will(&mut session, global).await {
+            io_error.get_or_insert(err);
+        }
     }
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
@@ -666,6 +682,23 @@ async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Syn
     Ok(())
 }
 
+async fn after_connect<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &mut Session,
+    session_present: bool,
+    conn: &mut T,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<()> {
+    // Run after connect hook
+    if global.config.hook.enable_after_connect {
+        after_connect_hook(session, session_present, hook_handler, global).await?;
+    }
+    for packet in after_handle_packet(session) {
+        write_packet(session.client_id, conn, &packet).await?;
+    }
+    Ok(())
+}
+
 async fn after_connect_hook<H: Hook + Clone + Send + Sync>(
     session: &mut Session,
     session_present: bool,
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index e9947ea..52064ac 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -154,7 +154,9 @@ clean session : {}
         }
     }
 
-    // FIXME: early return after add_client will cause memory leak
+    // From here on the client is registered, the caller has to end the session
+    session.connected = true;
+    session.connected_time = Some(Instant::now());
 
     start_keep_alive_timer(
         session.keep_alive,
@@ -167,8 +169,6 @@ clean session : {}
 
     let rv_packet = Connack::new(session_present, return_code);
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
-    session.connected = true;
-    session.connected_time = Some(Instant::now());
     Ok(session_present)
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index cf21849..ac436ab 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -176,13 +176,13 @@ async fn handle_online<
         before_connect_hook(&mut session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
-    let mut session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let mut connect_result =
+        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await;
 
     // * Scram challenge only need 1 round.
     // * Kerberos challenge need 2 rounds.
     let mut round_quota = 2;
-    while session.authorizing && round_quota > 0 {
+    while connect_result.is_ok() && session.authorizing && round_quota > 0 {
         round_quota -= 1;
 
         let packet = async {
@@ -232,14 +232,14 @@ async fn handle_online<
 
         match handle_auth(&mut session, auth, global) {
             Ok((AuthReasonCode::Success, server_final)) => {
-                session_present = session_connect(
+                connect_result = session_connect(
                     &mut session,
                     &mut receiver,
                     Some(server_final),
                     &mut conn,
                     global,
                 )
-                .await?;
+                .await;
             }
             Ok((AuthReasonCode::ContinueAuthentication, server_first)) => {
                 let auth_method = session.auth_method.as_ref().expect("auth method");
@@ -265,17 +265,26 @@ async fn handle_online<
 
     if !session.connected {
         log::info!("{} not connected", session.peer);
-        return Err(io::ErrorKind::InvalidData.into());
+        return Err(connect_result
+            .err()
+            .unwrap_or_else(|| io::ErrorKind::InvalidData.into()));
     }
 
-    // Run after connect hook
-    if global.config.hook.enable_after_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+    // The client is registered, so an error must not skip the end of the session
+    let mut io_error = match connect_result {
+        Ok(session_present) => {
+            after_connect(
+                &mut session,
+                session_present,
+                &mut conn,
+                hook_handler,
+                global,
+            )
+            .await
+        }
+        Err(err) => Err(err),
     }
+    .err();
 
     let receiver = receiver.expect("receiver");
     log::info!(
@@ -286,23 +295,28 @@ async fn handle_online<
     );
 
     let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+    if io_error.is_none() {
+        let online_loop = OnlineLoop::new(
+            &mut session,
+            global,
+            hook_handler,
+            &receiver,
+            receiver.control.stream(),
+            receiver.normal.stream(),
+            &mut conn,
+            &mut taken_over,
+            PollPacketState::default(),
+        );
+        io_error = online_loop.await;
+    }
+    if global.config.hook.enable_after_disconnect
+        && let Err(err) =
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+    {
+        io_error.get_or_insert(err);
     }
     if taken_over {
-        return Ok(None);
+        return io_error.map_or(Ok(None), Err);
     }
 
     log::debug!(
@@ -312,8 +326,10 @@ async fn handle_online<
         session.server_disconnected,
     );
     // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
+    if !session.client_disconnected
+        && let Err(err) = handle_will(&mut session, global).await
+    {
+        io_error.get_or_insert(err);
     }
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
@@ -991,6 +1007,23 @@ async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Syn
     Ok(())
 }
 
+async fn after_connect<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &mut Session,
+    session_present: bool,
+    conn: &mut T,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<()> {
+    // Run after connect hook
+    if global.config.hook.enable_after_connect {
+        after_connect_hook(session, session_present, hook_handler, global).await?;
+    }
+    for packet in after_handle_packet(session) {
+        write_packet(session.client_id, conn, &packet).await?;
+    }
+    Ok(())
+}
+
 async fn after_connect_hook<H: Hook + Clone + Send + Sync>(
     session: &mut Session,
     session_present: bool,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 231f467..a81eabc 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -281,6 +281,10 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
         }
     }
 
+    // From here on the client is registered, the caller has to end the session
+    session.connected = true;
+    session.connected_time = Some(Instant::now());
+
     session
         .pending_packets
         .set_max_inflight(session.receive_max);
@@ -346,9 +350,6 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
         properties: connack_properties,
     };
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
-
-    session.connected = true;
-    session.connected_time = Some(Instant::now());
     Ok(session_present)
 }
 
-- 
2.43.0


From c529ebc6d509c552a2f71fb0590f821b6af6333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 21/34] fix: the will is sent when a v5 client disconnects with
 will message

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index ac436ab..cc30028 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -326,9 +326,8 @@ async fn handle_online<
         session.server_disconnected,
     );
     // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected
-        && let Err(err) = handle_will(&mut session, global).await
-    {
+    // A normal disconnect has removed the will already
+    if let Err(err) = handle_will(&mut session, global).await {
         io_error.get_or_insert(err);
     }
     broadcast_packets(&mut session).await;
-- 
2.43.0


From 32c9ecc85f1aeb0db9f34eb07efc55a16b3c97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 22/34] fix: the keep alive timer of an earlier connection no
 longer kicks the client

---
 akasa-core/src/protocols/mqtt/common.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..6f22110 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -1,5 +1,5 @@
 use std::io;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::{Duration, Instant};
 
 use parking_lot::RwLock;
@@ -16,14 +16,16 @@ pub(crate) fn start_keep_alive_timer(
     if keep_alive > 0 {
         let half_interval = Duration::from_millis(keep_alive as u64 * 500);
         log::debug!("{} keep alive: {:?}", client_id, half_interval * 2);
-        let last_packet_time = Arc::clone(last_packet_time);
+        // The timer must not outlive its connection, the client id may be taken over
+        let last_packet_time = Arc::downgrade(last_packet_time);
         let global = Arc::clone(global);
         let action_gen = move || {
             // Need clone twice: https://stackoverflow.com/a/68462908/1274372
-            let last_packet_time = Arc::clone(&last_packet_time);
+            let last_packet_time = Weak::clone(&last_packet_time);
             let global = Arc::clone(&global);
             async move {
                 {
+                    let last_packet_time = last_packet_time.upgrade()?;
                     let last_packet_time = last_packet_time.read();
                     if last_packet_time.elapsed() <= half_interval * 3 {
                         return Some(half_interval);
-- 
2.43.0


From 72a4cb95194c68183fdd0d75b7f41430ce62d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 23/34] fix: the session expiry of a v5 DISCONNECT is limited
 like that of a CONNECT

---
 akasa-core/src/protocols/mqtt/v5/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index cc30028..0247532 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -464,7 +464,7 @@ impl OnlineSession for Session {
 
         match packet {
             Packet::Disconnect(pkt) => {
-                if let Err(err_pkt) = handle_disconnect(self, pkt) {
+                if let Err(err_pkt) = handle_disconnect(self, pkt, global) {
                     // FIXME: must ensure error packet finally written to client in several seconds.
                     write_packets.push_back(err_pkt.into());
                 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index a81eabc..e9824a6 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -355,7 +355,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
 #[inline]
 #[allow(clippy::result_large_err)]
-pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Result<(), Packet> {
+pub(crate) fn handle_disconnect(
+    session: &mut Session,
+    packet: Disconnect,
+    global: &Arc<GlobalState>,
+) -> Result<(), Packet> {
     log::debug!("{} received a disconnect packet", session.client_id);
     if let Some(value) = packet.properties.session_expiry_interval {
         if session.session_expiry_interval == 0 && value > 0 {
@@ -365,7 +369,7 @@ pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Re
                 "SessionExpiryInterval is 0 in CONNECT",
             ));
         }
-        session.session_expiry_interval = value;
+        session.session_expiry_interval = value.min(global.config.max_session_expiry_interval);
     }
 
     // * no UserProperty
-- 
2.43.0


From 65597807f3fd5074d46b6e671dcdbbc2c672d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 24/34] fix: a v5 publish above the announced maximum QoS is
 refused

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index cbda207..04cdada 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -64,6 +64,15 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        log::debug!("qos not supported: {:?}", packet.qos_pid);
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::QoSNotSupported,
+            "qos not supported",
+        );
+        return Err(err_pkt);
+    }
     let properties = &mut packet.properties;
     let mut topic_name = packet.topic_name.clone();
     if let Some(alias) = properties.topic_alias {
-- 
2.43.0


From 95d199e941754d0dc263290f96b8782901d2f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:48 +0000
Subject: [PATCH 25/34] fix: v3 clients get live messages without the retain
 flag

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index d197695..31b5caf 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -605,7 +605,7 @@ fn handle_normal(
         NormalMessage::PublishV3 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
@@ -621,7 +621,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9] not a retained message for an established subscription
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
@@ -631,7 +632,7 @@ fn handle_normal(
         NormalMessage::PublishV5 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
@@ -648,7 +649,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9] not a retained message for an established subscription
+                    retain: false,
                     payload,
                     subscribe_filter: subscribe_filters.first()?,
                     subscribe_qos,
-- 
2.43.0


From ebfedd8d88f60065a32a075f87d369988cf9cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 26/34] fix: a retained message above the granted QoS is
 delivered with the granted QoS

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..6cd25d6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,19 +42,17 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From 1c8999c00b97d7364416431e9686c462561c8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 27/34] fix: the will is sent when the connection is taken over

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 7 +++----
 akasa-core/src/protocols/mqtt/v5/message.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 31b5caf..e21bfee 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -187,10 +187,6 @@ async fn handle_online<
     {
         io_error.get_or_insert(err);
     }
-    if taken_over {
-        return io_error.map_or(Ok(None), Err);
-    }
-
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
@@ -215,6 +211,9 @@ async fn handle_online<
             }
         }
     }
+    if taken_over {
+        return io_error.map_or(Ok(None), Err);
+    }
     if session.clean_session {
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = io_error {
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 0247532..2a605d6 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -315,10 +315,6 @@ async fn handle_online<
     {
         io_error.get_or_insert(err);
     }
-    if taken_over {
-        return io_error.map_or(Ok(None), Err);
-    }
-
     log::debug!(
         "[{}] online loop finished, client_disconnected={}, server_disconnected={}",
         session.client_id,
@@ -331,6 +327,9 @@ async fn handle_online<
         io_error.get_or_insert(err);
     }
     broadcast_packets(&mut session).await;
+    if taken_over {
+        return io_error.map_or(Ok(None), Err);
+    }
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = io_error {
-- 
2.43.0


From e5deffb8624e87d6016f34fb5d3f5712edfb518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 28/34] fix: messages of v3 clients reach the members of shared
 groups

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index a8573a9..bdab910 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -7,10 +7,12 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, Pid, QoS, QosPid, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
 };
+use rand::RngExt;
 
+use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
@@ -206,6 +208,23 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
+        // Only v5 clients can join a group
+        for (group_name, shared_clients) in &content.groups {
+            let (client_id, subscribe_qos) = match global.config.shared_subscription_mode {
+                SharedSubscriptionMode::Random => {
+                    shared_clients.get_by_number(rand::rng().random())
+                }
+                SharedSubscriptionMode::HashClientId => {
+                    shared_clients.get_by_hash(&session.client_identifier)
+                }
+                SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name),
+            };
+            let full_filter = TopicFilter::try_from(
+                format!("{SHARED_PREFIX}{group_name}/{subscribe_filter}").as_str(),
+            )
+            .expect("full topic filter");
+            senders.push((client_id, full_filter, subscribe_qos));
+        }
     }
 
     session.broadcast_packets_cnt += senders.len();
-- 
2.43.0


From 9fed3871ddc6b4bac5e530cc788f7ff3d68c5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 29/34] fix: a configuration with an empty inflight window or
 keep alive range is invalid

---
 akasa-core/src/config.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/akasa-core/src/config.rs b/akasa-core/src/config.rs
index 114074f..f7c6995 100644
--- a/akasa-core/src/config.rs
+++ b/akasa-core/src/config.rs
@@ -259,6 +259,18 @@ impl Config {
             );
             return false;
         }
+        if self.max_inflight_client == 0 || self.max_inflight_server == 0 {
+            log::error!("invalid max_inflight_client/max_inflight_server, 0 is not allowed");
+            return false;
+        }
+        if self.min_keep_alive > self.max_keep_alive {
+            log::error!(
+                "invalid keep alive range, min: {}, max: {}",
+                self.min_keep_alive,
+                self.max_keep_alive
+            );
+            return false;
+        }
         if self.max_packet_size_client == 0 {
             log::error!("invalid client max_packet_size, 0 is not allowed");
             return false;
-- 
2.43.0


From 24a769ac82977b6b2334c3bdd54c2e1a3cf232f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 30/34] fix: no publish larger than the maximum packet size of
 a v5 client is sent

---
 akasa-core/src/protocols/mqtt/v5/message.rs   |  7 +--
 .../src/protocols/mqtt/v5/packet/common.rs    | 52 +++++++++++------
 .../src/protocols/mqtt/v5/packet/publish.rs   | 57 +++++++++++--------
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  7 ---
 4 files changed, 72 insertions(+), 51 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 2a605d6..b787273 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -821,7 +821,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v3 publish message from {}",
@@ -842,8 +842,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Lookup(subscribe_filter),
                         subscribe_qos,
                         properties: None,
-                        // one byte is for property length
-                        encode_len: encode_len + 1,
                     },
                 )
             } else {
@@ -858,7 +856,7 @@ fn handle_normal(
             ref subscribe_filters,
             subscribe_qos,
             ref properties,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v5 publish message from {}, msg: {:?}",
@@ -896,7 +894,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Precomputed(subscription_ids),
                         subscribe_qos,
                         properties: Some(properties),
-                        encode_len,
                     },
                 )
             }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index a1efca7..991bae5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -148,9 +148,22 @@ pub(super) fn get_or_assign_server_topic_alias(
     (alias, true)
 }
 
+/// The most bytes a topic alias can add to a publish packet: the property itself
+/// and one more byte for both the property length and the remaining length.
+pub(super) const TOPIC_ALIAS_LEN: usize = 5;
+
+/// If the packet together with the extra bytes is not larger than the client can accept
+pub(super) fn fit_packet_size(packet: &Packet, max_packet_size: u32, extra: usize) -> bool {
+    match packet.encode_len() {
+        Ok(len) => len.saturating_add(extra) <= max_packet_size as usize,
+        Err(_) => false,
+    }
+}
+
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     let topic_alias_max = session.topic_alias_max;
+    let max_packet_size = session.max_packet_size;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
         &mut session.server_topic_aliases_by_topic,
@@ -189,35 +202,42 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     QoS::Level1 => QosPid::Level1(*pid),
                     QoS::Level2 => QosPid::Level2(*pid),
                 };
-                let mut properties = packet.properties.clone();
-                let mut topic_name = packet.topic_name.clone();
-                properties.message_expiry_interval = message_expiry_interval;
-                if !*dup && topic_alias_max > 0 {
+                let mut publish = Publish {
+                    dup: *dup,
+                    retain: packet.retain,
+                    qos_pid,
+                    topic_name: packet.topic_name.clone(),
+                    payload: packet.payload.clone(),
+                    properties: packet.properties.clone(),
+                };
+                publish.properties.message_expiry_interval = message_expiry_interval;
+                let rv_packet = publish.clone().into();
+                if !fit_packet_size(&rv_packet, max_packet_size, 0) {
+                    // The client has reconnected with a smaller limit
+                    expired_packets.push(*pid);
+                    continue;
+                }
+                if !*dup
+                    && topic_alias_max > 0
+                    && fit_packet_size(&rv_packet, max_packet_size, TOPIC_ALIAS_LEN)
+                {
                     let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                         topic_alias_max,
                         aliases_by_topic,
                         aliases_by_alias,
                         tick,
-                        &topic_name,
+                        &packet.topic_name,
                     );
                     if alias > 0 {
-                        properties.topic_alias = Some(alias);
+                        publish.properties.topic_alias = Some(alias);
                         if !is_new_mapping {
-                            topic_name = empty_topic_name().clone();
+                            publish.topic_name = empty_topic_name().clone();
                         }
                     }
                 }
-                let rv_packet = Publish {
-                    dup: *dup,
-                    retain: packet.retain,
-                    qos_pid,
-                    topic_name,
-                    payload: packet.payload.clone(),
-                    properties,
-                };
                 *dup = true;
                 *last_sent = now_ts;
-                packets.push(rv_packet.into());
+                packets.push(publish.into());
             }
             PendingPacketStatus::Pubrec { pid, last_sent, .. } => {
                 let rv_packet = Pubrel {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 04cdada..ffd081e 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v5::{
         DisconnectReasonCode, Packet, Puback, PubackProperties, PubackReasonCode, Pubcomp,
         PubcompProperties, PubcompReasonCode, Publish, PublishProperties, Pubrec, PubrecProperties,
@@ -19,7 +19,10 @@ use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
-use super::common::{build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias};
+use super::common::{
+    TOPIC_ALIAS_LEN, build_error_disconnect, empty_topic_name, fit_packet_size,
+    get_or_assign_server_topic_alias,
+};
 use super::{PubPacket, Session};
 
 #[inline]
@@ -304,7 +307,6 @@ pub(crate) struct RecvPublish<'a> {
     pub subscription_ids: SubscriptionIds<'a>,
     // [MQTTv5.0-3.8.4] keyword: downgraded
     pub subscribe_qos: QoS,
-    pub encode_len: usize,
 }
 
 #[derive(Debug)]
@@ -469,7 +471,19 @@ pub(crate) fn recv_publish(
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
     if final_qos != QoS::Level0 {
-        if msg.encode_len > session.max_packet_size as usize {
+        let publish = Publish {
+            dup: false,
+            qos_pid: if final_qos == QoS::Level1 {
+                QosPid::Level1(Pid::default())
+            } else {
+                QosPid::Level2(Pid::default())
+            },
+            retain: msg.retain,
+            topic_name: msg.topic_name.clone(),
+            payload: msg.payload.clone(),
+            properties: properties.clone(),
+        };
+        if !fit_packet_size(&publish.into(), session.max_packet_size, 0) {
             return None;
         }
         let pid = session.incr_server_packet_id();
@@ -487,39 +501,36 @@ pub(crate) fn recv_publish(
         );
         Some((final_qos, None))
     } else if !session.client_disconnected && !session.server_disconnected {
-        let encode_len = if msg.qos > QoS::Level0 {
-            msg.encode_len - 2
-        } else {
-            msg.encode_len
+        let mut publish = Publish {
+            dup: false,
+            qos_pid: QosPid::Level0,
+            retain: msg.retain,
+            topic_name: msg.topic_name.clone(),
+            payload: msg.payload.clone(),
+            properties,
         };
-        if encode_len > session.max_packet_size as usize {
+        let packet = publish.clone().into();
+        if !fit_packet_size(&packet, session.max_packet_size, 0) {
             return None;
         }
-        let mut topic_name = msg.topic_name.clone();
-        if session.topic_alias_max > 0 {
+        if session.topic_alias_max > 0
+            && fit_packet_size(&packet, session.max_packet_size, TOPIC_ALIAS_LEN)
+        {
             let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                 session.topic_alias_max,
                 &mut session.server_topic_aliases_by_topic,
                 &mut session.server_topic_aliases_by_alias,
                 &mut session.server_alias_tick,
-                &topic_name,
+                msg.topic_name,
             );
             if alias > 0 {
-                properties.topic_alias = Some(alias);
+                publish.properties.topic_alias = Some(alias);
                 if !is_new_mapping {
-                    topic_name = empty_topic_name().clone();
+                    publish.topic_name = empty_topic_name().clone();
                 }
             }
         }
-        let rv_packet = Publish {
-            dup: false,
-            qos_pid: QosPid::Level0,
-            retain: msg.retain,
-            topic_name,
-            payload: msg.payload.clone(),
-            properties,
-        };
-        Some((final_qos, Some(rv_packet.into())))
+        Some((final_qos, Some(publish.into())))
     } else {
         None
     }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index cc6956d..ac1d8cc 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,12 +87,6 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
-                        let encode_len = if msg.properties.is_none() {
-                            // one byte for property length
-                            msg.encode_len + 1
-                        } else {
-                            msg.encode_len
-                        };
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -104,7 +98,6 @@ packet id : {}
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
                                 properties: msg.properties.as_ref(),
-                                encode_len,
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 86c094256674f67941092a390b5db36464f2e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 31/34] fix: an expired retained message is not sent

---
 akasa-core/src/protocols/mqtt/retain.rs              | 11 +++++++++++
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs |  3 +++
 akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs | 10 +++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/retain.rs b/akasa-core/src/protocols/mqtt/retain.rs
index 185a798..4091013 100644
--- a/akasa-core/src/protocols/mqtt/retain.rs
+++ b/akasa-core/src/protocols/mqtt/retain.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use parking_lot::RwLock;
 
+use super::get_unix_ts;
 use super::route::split_topic;
 
 #[derive(Debug, Default)]
@@ -30,6 +31,8 @@ pub struct RetainContent {
     pub payload: Bytes,
     pub properties: Option<PublishProperties>,
     pub encode_len: usize,
+    // unix timestamp
+    pub stored_at: u64,
 }
 
 impl RetainTable {
@@ -173,8 +176,16 @@ impl RetainContent {
             payload,
             properties,
             encode_len,
+            stored_at: get_unix_ts(),
         }
     }
+
+    /// The rest of the message expiry interval, 0 if the message has expired
+    pub fn remaining_expiry(&self) -> Option<u32> {
+        let interval = self.properties.as_ref()?.message_expiry_interval?;
+        let passed_secs = get_unix_ts().saturating_sub(self.stored_at);
+        Some(u64::from(interval).saturating_sub(passed_secs) as u32)
+    }
 }
 
 #[cfg(test)]
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 6cd25d6..2870d5f 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,6 +42,9 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
+            if msg.remaining_expiry() == Some(0) {
+                continue;
+            }
             if let Some((final_qos, packet_opt)) = recv_publish(
                 session,
                 RecvPublish {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index ac1d8cc..5e47289 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,6 +87,14 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
+                        let remaining_expiry = msg.remaining_expiry();
+                        if remaining_expiry == Some(0) {
+                            continue;
+                        }
+                        let mut properties = msg.properties.clone();
+                        if let Some(properties) = properties.as_mut() {
+                            properties.message_expiry_interval = remaining_expiry;
+                        }
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -97,7 +105,7 @@ packet id : {}
                                 payload: &msg.payload,
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
-                                properties: msg.properties.as_ref(),
+                                properties: properties.as_ref(),
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 7525a4408e274286ec66c351d0eb1a8694eae788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 32/34] fix: a session that ends with its connection is not
 resumed by a take-over

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v3/session.rs        | 2 ++
 akasa-core/src/protocols/mqtt/v5/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/session.rs        | 2 ++
 6 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index e21bfee..010254f 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -251,6 +251,7 @@ impl OnlineSession for Session {
         mem::swap(&mut self.broadcast_packets, &mut broadcast_packets);
         SessionState {
             client_id: self.client_id,
+            clean_session: self.clean_session,
             receiver,
             protocol: self.protocol,
 
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 52064ac..48bafb5 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -121,7 +121,10 @@ clean session : {}
             session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_session && session.protocol == old_state.protocol {
+            if !session.clean_session
+                && !old_state.clean_session
+                && session.protocol == old_state.protocol
+            {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index f929877..f899b88 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -41,6 +41,8 @@ pub struct Session {
 
 pub struct SessionState {
     pub client_id: ClientId,
+    // a session ending with its connection can't be resumed
+    pub clean_session: bool,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index b787273..a1ae884 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -374,6 +374,7 @@ impl OnlineSession for Session {
         mem::swap(&mut self.broadcast_packets, &mut broadcast_packets);
         SessionState {
             client_id: self.client_id,
+            session_expiry_interval: self.session_expiry_interval,
             receiver,
             protocol: self.protocol,
 
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index e9824a6..38fe2cf 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -250,7 +250,10 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_start && session.protocol == old_state.protocol {
+            if !session.clean_start
+                && old_state.session_expiry_interval > 0
+                && session.protocol == old_state.protocol
+            {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 41005cd..4aa3643 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -76,6 +76,8 @@ pub struct Session {
 
 pub struct SessionState {
     pub client_id: ClientId,
+    // a session ending with its connection can't be resumed
+    pub session_expiry_interval: u32,
     pub receiver: ClientReceiver,
     pub protocol: Protocol,
 
-- 
2.43.0


From 4becb428554f1d03c2a64e825e6496858dcafb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 33/34] fix: the count of outgoing messages is reset when they
 are sent at the end of a connection

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 1 +
 akasa-core/src/protocols/mqtt/v5/message.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 010254f..0427819 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -194,6 +194,7 @@ async fn handle_online<
             io_error.get_or_insert(err);
         }
     }
+    session.broadcast_packets_cnt = 0;
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
             if let Err(err) = info
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index a1ae884..99490bf 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -953,6 +953,7 @@ fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()>
 }
 
 async fn broadcast_packets(session: &mut Session) {
+    session.broadcast_packets_cnt = 0;
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
             log::debug!(
-- 
2.43.0


From dcf4d184bd55213bc00425cc09b43e2bc07309ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 34/34] fix: what a partial write leaves over is written
 without waiting for another event

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..5d1b10d 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -430,7 +430,6 @@ where
                     if data_idx < data_all.len() {
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
-- 
2.43.0

