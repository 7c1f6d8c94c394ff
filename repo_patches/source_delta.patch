From e379a5a57860d57d4bd3385abec01fbd6a841c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:52 +0000
Subject: [PATCH 01/30] fix: reject ECDSA public keys whose curve differs from
 their key type

A blob labelled ecdsa-sha2-nistp256 (or the SK or certificate variant) but
carrying another curve identifier was accepted and re-encoded under the
mismatching label.
---
 src/ssh/pubkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 592b08f..3af5487 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -268,6 +268,11 @@ impl PublicKey {
             KeyTypeKind::Ecdsa | KeyTypeKind::EcdsaCert => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                // RFC 5656 makes the curve part of the key type name, a blob
+                // naming two different curves is malformed.
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let key = reader.read_bytes()?;
                 let sk_application = match kt.is_sk {
                     true => Some(reader.read_string()?),
-- 
2.43.0


From e4e4c2865b9fa71d27b47f40302585a0fa7f68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 02/30] fix: classify SK certificate key types as certificates

Their kind was the plain key's, so an SK certificate could pass for a CA
public key and a plain SK label for an SK certificate.
---
 src/ssh/keytype.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/keytype.rs b/src/ssh/keytype.rs
index 74962ec..e2a91cf 100644
--- a/src/ssh/keytype.rs
+++ b/src/ssh/keytype.rs
@@ -224,7 +224,7 @@ impl KeyType {
                 short_name: "ED25519-SK-CERT",
                 is_cert: true,
                 is_sk: true,
-                kind: KeyTypeKind::Ed25519,
+                kind: KeyTypeKind::Ed25519Cert,
             },
             "sk-ecdsa-sha2-nistp256@openssh.com" => KeyType {
                 name: "sk-ecdsa-sha2-nistp256@openssh.com",
@@ -240,7 +240,7 @@ impl KeyType {
                 short_name: "ECDSA-SK",
                 is_cert: true,
                 is_sk: true,
-                kind: KeyTypeKind::Ecdsa,
+                kind: KeyTypeKind::EcdsaCert,
             },
             _ => return Err(Error::UnknownKeyType(name.to_string())),
         };
-- 
2.43.0


From 2521ed0a51b817bbf5d1c667bf3ed1c72b80c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 03/30] fix: reject certificate text whose label is not the
 certificate's type

Only the key family was compared, so a nistp256 label was accepted on a
nistp384 certificate.
---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 385b566..e1c4259 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -157,7 +157,7 @@ impl Certificate {
         let mut cert = Certificate::from_bytes(&decoded)?;
         cert.comment = comment;
 
-        if cert.key_type.kind != outer_kt.kind {
+        if cert.key_type.name != outer_kt.name {
             return Err(Error::KeyTypeMismatch);
         }
         Ok(cert)
-- 
2.43.0


From 3cd7e0809a368857c70b7b7eca269f486e7fb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 04/30] fix: require a signature's type to be the key's, not
 only its family

A signature labelled for another curve, or without the SK variant of the
key, was verified under the algorithm of its own label.
---
 src/ssh/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8dd3c18..d641d03 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -285,7 +285,7 @@ pub(crate) fn verify_signature(
 
     // If these types don't match we can't continue verification as it's unclear
     // what the correct type even is.
-    if public_key.key_type.kind != sig_type.kind {
+    if public_key.key_type.kind != sig_type.kind || public_key.key_type.plain != sig_type.plain {
         return Err(Error::KeyTypeMismatch);
     }
 
-- 
2.43.0


From 764b1ec587e2dca3421427b30cd7b8cc6e572f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 05/30] fix: write certificate options in lexical order

PROTOCOL.certkeys requires it; the map's iteration order also made the bytes
to be signed differ between runs for the same certificate.
---
 src/ssh/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..863687f 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use super::pubkey::{PublicKey, PublicKeyKind};
 
@@ -196,7 +196,9 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // PROTOCOL.certkeys requires the options to be lexically ordered by name
+        let ordered: BTreeMap<&String, &String> = map.iter().collect();
+        for (k, v) in ordered {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From 30485db8a4353f0c1d83883b64f9a20bf7b443a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:42 +0000
Subject: [PATCH 06/30] fix: ignore the comment when pinning a signature's
 public key

---
 src/ssh/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index d641d03..5e12d04 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -210,7 +210,10 @@ impl VerifiedSshSignature {
         // public key before verification. This is useful when you have a signature but additionally
         // need to check the signature is from it.
         if let Some(pub_key) = pub_key {
-            if ssh_signature.pubkey != pub_key {
+            // The comment is not part of the key, and is never present in a signature.
+            if ssh_signature.pubkey.key_type != pub_key.key_type
+                || ssh_signature.pubkey.kind != pub_key.kind
+            {
                 return Err(Error::InvalidSignature);
             }
         }
-- 
2.43.0


From 631b92a0f84638ce17fb4eae66bd7b80d29dc90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:52 +0000
Subject: [PATCH 07/30] fix: reject RSA private keys with a factor of 0 or 1
 instead of panicking

---
 src/ssh/privkey.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..df10511 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -304,6 +304,12 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // Neither factor can be 0 or 1, and the CRT exponents computed
+                // below do not exist for them.
+                if p.as_slice() <= &[1][..] || q.as_slice() <= &[1][..] {
+                    return Err(Error::InvalidFormat);
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From 06db5325265546f7bbdea326c6c182fb1d5df749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:32 +0000
Subject: [PATCH 08/30] fix: reject ECDSA private keys whose curve differs from
 their key type

---
 src/ssh/privkey.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index df10511..6ae6f21 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -355,6 +355,10 @@ impl PrivateKey {
             KeyTypeKind::Ecdsa => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                // The curve is fixed by the key type.
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let pubkey = reader.read_bytes()?;
 
                 let (private_key, sk_application) = match kt.is_sk {
-- 
2.43.0


From 35e1f6471cc93255c951bcc969cb95d09828e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:41 +0000
Subject: [PATCH 09/30] fix: keep the reserved field when encoding security key
 private keys

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 6ae6f21..5204688 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -687,7 +687,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -697,7 +697,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From eeaf7a97c09af7c22a613df24091f401d039fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:51 +0000
Subject: [PATCH 10/30] fix: sign with ECDSA keys whose scalar is shorter than
 the curve order

---
 src/ssh/privkey.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 5204688..ba5b223 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -253,17 +253,20 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
-                    &key.key[1..]
-                } else {
-                    &key.key
-                };
-                let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
-                ) {
-                    Ok(kp) => kp,
-                    Err(_) => return None,
-                };
+                // The scalar is stored as an mpint: it may have a leading zero or be
+                // shorter than the group order, which is the length ring requires.
+                let leading = key.key.iter().take_while(|b| **b == 0).count();
+                let scalar = &key.key[leading..];
+                if scalar.is_empty() || scalar.len() > len {
+                    return None;
+                }
+                let mut padded = vec![0; len - scalar.len()];
+                padded.extend_from_slice(scalar);
+                let key_pair = signature::EcdsaKeyPair::from_private_key_and_public_key(
+                    alg, &padded, pubkey, &rng,
+                );
+                padded.zeroize();
+                let key_pair = key_pair.ok()?;
 
                 format_signature_for_ssh(&self.pubkey, key_pair.sign(&rng, buffer).ok()?.as_ref())
             }
-- 
2.43.0


From fa5628fc43e6919411b713be70d80c2e41f2d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:00 +0000
Subject: [PATCH 11/30] fix: do not panic when signing with a truncated Ed25519
 private key

---
 src/ssh/privkey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index ba5b223..e450d54 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -277,7 +277,7 @@ impl super::SSHCertificateSigner for PrivateKey {
                 };
 
                 let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
+                    match Ed25519KeyPair::from_seed_and_public_key(key.key.get(..32)?, public_key) {
                         Ok(kp) => kp,
                         Err(_) => return None,
                     };
-- 
2.43.0


From c3ff03e6ac7e8702655efff63ad2d51d34be7a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:10 +0000
Subject: [PATCH 12/30] fix: store generated Ed25519 private keys in the
 OpenSSH form

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index e450d54..2de548c 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -465,7 +465,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // As in the OpenSSH format: the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [seed.as_ref(), public_key_bytes.as_slice()].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 13a8b37be2a3c75b2b9a8bd33c88284118f0e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:31 +0000
Subject: [PATCH 13/30] fix: accept allowed signer lines whose comment ends in
 a quote

---
 src/ssh/allowed_signer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..4f4426b 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -345,7 +345,7 @@ impl AllowedSignerSplitter {
 
         // If the next token starts with a double quote, then the closing double quote is also
         // the end of the token
-        if self.buffer[0] == "\"" {
+        if self.buffer.last().map_or(false, |next| next == "\"") && self.buffer[0] == "\"" {
             if opening_quotes_allowed {
                 return self.split_quote().map(|v| Some(v));
             } else {
-- 
2.43.0


From e02d328f5987e0e0e851c92c85823b0515243ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:31 +0000
Subject: [PATCH 14/30] fix: reject allowed signer timestamps that are not
 digits with at most one Z

---
 src/ssh/allowed_signer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 4f4426b..96ca36d 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -437,7 +437,11 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     if is_utc {
-        s = s.trim_end_matches('Z');
+        s = &s[..s.len() - 1];
+    }
+    // chrono would also take blanks and signs
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     let datetime = match s.len() {
         8 => {
-- 
2.43.0


From 42d71f2a2f34f1252e70f81c0e16687a1d70b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:31 +0000
Subject: [PATCH 15/30] fix: do not panic on local allowed signer timestamps
 around a clock change

---
 src/ssh/allowed_signer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96ca36d..718f3a2 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -464,8 +464,10 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         datetime.and_utc()
             .timestamp()
     } else {
+        // The clock shows some local times twice, and skips others
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From c0084cad421d1ac22552c4e6ba9772ce6d330bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:03 +0000
Subject: [PATCH 16/30] fix: display allowed signer validity times in the
 format they are read in

---
 src/ssh/allowed_signer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 718f3a2..5d1700c 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -4,7 +4,7 @@ use std::io::Read;
 use std::path::Path;
 
 use chrono::prelude::Local;
-use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{NaiveDate, NaiveDateTime, NaiveTime, TimeZone, Utc};
 
 use super::pubkey::PublicKey;
 use crate::{error::Error, Result};
@@ -220,11 +220,11 @@ impl fmt::Display for AllowedSigner {
         }
 
         if let Some(ref valid_after) = self.valid_after {
-            output.push_str(&format!(" valid-after={}", valid_after));
+            output.push_str(&format!(" valid-after={}", format_timestamp(*valid_after)));
         }
 
         if let Some(ref valid_before) = self.valid_before {
-            output.push_str(&format!(" valid-before={}", valid_before));
+            output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
         output.push_str(&format!(" {}", self.key));
@@ -427,6 +427,14 @@ impl AllowedSignerSplitter {
     }
 }
 
+/// Write a timestamp in the format YYYYMMDDHHMMSSZ read by parse_timestamp.
+fn format_timestamp(timestamp: i64) -> String {
+    match Utc.timestamp_opt(timestamp, 0).single() {
+        Some(datetime) => datetime.format("%Y%m%d%H%M%SZ").to_string(),
+        None => timestamp.to_string(),
+    }
+}
+
 /// Parse a string into a u64 representing a timestamp.
 /// The timestamp has format YYYYMMDD[HHMM[SS]][Z]
 /// The timestamp can be enclosed by quotation marks.
-- 
2.43.0


From 627b20d6461a609db39037627c73012c9c77c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:03 +0000
Subject: [PATCH 17/30] fix: quote displayed allowed signer principals and
 namespaces that need it

---
 src/ssh/allowed_signer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 5d1700c..9665c6f 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -209,14 +209,14 @@ impl fmt::Display for AllowedSigner {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut output = String::new();
 
-        output.push_str(&self.principals.join(","));
-        
+        output.push_str(&quote(self.principals.join(",")));
+
         if self.cert_authority {
             output.push_str(" cert-authority");
         }
 
         if let Some(ref namespaces) = self.namespaces {
-            output.push_str(&format!(" namespaces={}", namespaces.join(",")));
+            output.push_str(&format!(" namespaces={}", quote(namespaces.join(","))));
         }
 
         if let Some(ref valid_after) = self.valid_after {
@@ -427,6 +427,15 @@ impl AllowedSignerSplitter {
     }
 }
 
+/// Enclose in quotes a value that would not be read back as one token without them.
+fn quote(s: String) -> String {
+    if s.contains([' ', '#']) {
+        format!("\"{}\"", s)
+    } else {
+        s
+    }
+}
+
 /// Write a timestamp in the format YYYYMMDDHHMMSSZ read by parse_timestamp.
 fn format_timestamp(timestamp: i64) -> String {
     match Utc.timestamp_opt(timestamp, 0).single() {
-- 
2.43.0


From 8b7a6b46330cd97287e392831f026ee867f72d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 18/30] fix: keep both coordinates of elliptic curve FIDO
 credentials

---
 src/fido/parsing.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..d6c1960 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let (mut x, mut y) = (None, None);
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,14 +177,19 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let coordinate = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            x = Some(coordinate);
+                        } else {
+                            y = Some(coordinate);
+                        }
                     }
                     x => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
@@ -193,6 +199,11 @@ impl AuthData {
                 };
                 idx += 2;
             }
+            parsed_key.key = match (parsed_key.key_type, x, y) {
+                // EC2: SSH uses the uncompressed form of the point
+                (2, Some(x), Some(y)) => [&[0x04], x.as_slice(), y.as_slice()].concat(),
+                (_, x, y) => x.or(y).unwrap_or_default(),
+            };
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From 87abfba7dade19cff5c09f103c134fd9e75af3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 19/30] fix: report the internal USB transport of a FIDO
 attestation

The loop over the bits of the transports extension stopped before the last of the five transports.
---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..097eac0 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..5 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From 1df68bd1965ad2c17922bab0a6135467bc287939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 20/30] fix: do not panic on a short policy extension in a PIV
 attestation

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..2232045 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() < 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From 640ed652735b2a509bd0061669a701a3f7b2eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 21/30] fix: do not panic on an unreadable PIV attestation root

---
 src/yubikey/verification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 2232045..925f87b 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -117,8 +117,8 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From bf0c9ba3ecc05ce5b6af84b2e2d2d4534bb734c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 22/30] fix: refuse to provision with an overlong common name

provision() panicked on a common name of more than 64 bytes, after the key
in the slot had already been replaced.
---
 src/yubikey/piv/management.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 686cb22..eadb0de 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -170,6 +170,11 @@ impl super::Yubikey {
         touch_policy: TouchPolicy,
         pin_policy: PinPolicy,
     ) -> Result<PublicKey> {
+        // X.509 limits common names to 64 bytes. Refuse longer ones before the
+        // key in the slot is replaced.
+        if common_name.len() > 64 {
+            return Err(Error::Unsupported);
+        }
         let key_info = yubikey::piv::generate(&mut self.yk, *slot, alg, pin_policy, touch_policy)?;
         let extensions: &[x509::Extension<'_, &[u64]>] = &[];
         // Generate a self-signed certificate for the new key.
-- 
2.43.0


From 45bad62f77111f00b52e6a0cb205fff5f82ecc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 23/30] fix: report device errors while generating a CSR

generate_csr() built its signer with CSRSigner::new, which panics when the
device cannot be reopened or read. The key has already been read, so use it.
---
 src/yubikey/piv/management.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index eadb0de..8beaa95 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -142,16 +142,27 @@ impl super::Yubikey {
     /// Generate CSR for slot
     pub fn generate_csr(&mut self, slot: &SlotId, common_name: &str) -> Result<Vec<u8>> {
         let mut params = rcgen::CertificateParams::new(vec![]);
-        params.alg = match self.configured(slot)? {
-            PublicKeyInfo::EcP256(_) => &rcgen::PKCS_ECDSA_P256_SHA256,
-            PublicKeyInfo::EcP384(_) => &rcgen::PKCS_ECDSA_P384_SHA384,
+        let (public_key, algorithm) = match self.configured(slot)? {
+            PublicKeyInfo::EcP256(pubkey) => {
+                params.alg = &rcgen::PKCS_ECDSA_P256_SHA256;
+                (pubkey.as_bytes().to_vec(), AlgorithmId::EccP256)
+            }
+            PublicKeyInfo::EcP384(pubkey) => {
+                params.alg = &rcgen::PKCS_ECDSA_P384_SHA384;
+                (pubkey.as_bytes().to_vec(), AlgorithmId::EccP384)
+            }
             _ => return Err(Error::Unsupported),
         };
         params
             .distinguished_name
             .push(rcgen::DnType::CommonName, common_name.to_string());
 
-        let csr_signer = CSRSigner::new(self.yk.serial().into(), *slot);
+        let csr_signer = CSRSigner {
+            slot: *slot,
+            serial: self.yk.serial().into(),
+            public_key,
+            algorithm,
+        };
         params.key_pair = Some(rcgen::KeyPair::from_remote(Box::new(csr_signer)).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?);
 
         let csr = rcgen::Certificate::from_params(params).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?;
-- 
2.43.0


From 7209673df35cfecf728872f8dec7edaafd1f62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:28 +0000
Subject: [PATCH 24/30] fix: a security key that cannot sign gives no signature
 instead of panicking or waiting forever

Signing with a token key panicked when the public key had no application or when the
request could not be started, and a token that asks for a PIN waited forever for an
answer on the status channel that nobody reads.
---
 src/fido/signing/mozilla.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..09bfca0 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -24,11 +24,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let pin: Option<Pin> = pin.map(|x| Pin::new(x));
 
-    // It should be safe to unwrap here because we've already determined
-    // the PrivateKey is of SK type
     let sk_application = match &private_key.pubkey.kind {
-        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref().unwrap(),
-        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref().unwrap(),
+        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref()?,
+        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref()?,
         _ => return None,
     };
 
@@ -65,18 +63,20 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         sign_tx.send(rv).unwrap();
     }));
 
-    let (status_tx, _status_rx) = channel::<StatusUpdate>();
+    // Nobody is there to answer the device's questions: with the receiver kept, a
+    // device that asks for a pin would wait for it forever.
+    let (status_tx, status_rx) = channel::<StatusUpdate>();
+    drop(status_rx);
     if let Err(e) = manager.sign(
         15_000,
         ctap_args.clone().into(),
         status_tx.clone(),
         callback,
     ) {
-        panic!("Couldn't sign: {:?}", e);
+        println!("Couldn't sign: {:?}", e);
+        return None;
     }
-    let sign_result = sign_rx
-        .recv()
-        .expect("Problem receiving, unable to continue");
+    let sign_result = sign_rx.recv().ok()?;
 
     let assertion = match sign_result {
         Ok(assertion_object) => assertion_object.assertion,
-- 
2.43.0


From 3252dffe6fc5d0188dfabaefdae0c987dfc37f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:50 +0000
Subject: [PATCH 25/30] fix: a failed token registration is reported instead of
 waiting forever

The status thread never ended because a sender stayed alive, so waiting for the PIN error
it might report deadlocked on every other registration error.
---
 src/fido/generate/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f17642d..8ed96b3 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -82,7 +82,7 @@ pub fn generate_new_ssh_key(
         let _ = register_tx.send(rv);
     }));
 
-    if let Err(e) = manager.register(15_000, ctap_args, status_tx.clone(), callback) {
+    if let Err(e) = manager.register(15_000, ctap_args, status_tx, callback) {
         return Err(Error::FidoError(FidoError::Unknown(e.to_string())));
     };
 
@@ -118,6 +118,8 @@ pub fn generate_new_ssh_key(
     let attestation_object = match register_result {
         Ok(attestation) => attestation,
         Err(e) => {
+            // The status thread stops once no sender is left
+            drop(manager);
             if let Ok(error) = error_rx.recv() {
                 return Err(Error::FidoError(error));
             } else {
-- 
2.43.0


From 40f603c9e6727eda48cf2cf2557ccaea1bcd9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:50 +0000
Subject: [PATCH 26/30] fix: a token credential that is not Ed25519 is no
 Ed25519 private key

---
 src/fido/generate/mozilla.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index 8ed96b3..cb8d209 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -133,6 +133,14 @@ pub fn generate_new_ssh_key(
     let auth_data = AuthData::parse(&raw_auth_data)?;
 
     let key_type = KeyType::from_name("sk-ssh-ed25519@openssh.com")?;
+    let pubkey = auth_data.ssh_public_key(application)?;
+    // Only an Ed25519 credential was asked for, and the private key can hold no other
+    if pubkey.key_type != key_type {
+        return Err(Error::FidoError(FidoError::Unknown(
+            "Wrong credential type".to_owned(),
+        )));
+    }
+
     let kind = PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey {
         flags: auth_data.flags,
         handle: auth_data.credential_id.clone(),
@@ -144,7 +152,7 @@ pub fn generate_new_ssh_key(
     let private_key = PrivateKey {
         key_type,
         kind,
-        pubkey: auth_data.ssh_public_key(application)?,
+        pubkey,
         magic: 0x0,
         comment: comment.to_string(),
     };
-- 
2.43.0


From 2987a24f35a627f4ec565ba151de5d564fa5f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:38 +0000
Subject: [PATCH 27/30] fix: read a NUL-terminated string as UTF-8, as it is
 written

Reader::read_cstring turned every byte into a character of its own, so text
outside ASCII came back different from what Writer::write_cstring was given.
---
 src/ssh/reader.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ssh/reader.rs b/src/ssh/reader.rs
index 8350f44..0ced6da 100644
--- a/src/ssh/reader.rs
+++ b/src/ssh/reader.rs
@@ -208,21 +208,27 @@ impl Reader<'_> {
     /// is unknown and will continue until it reads a null byte
     /// or reaches the end of the data.
     ///
-    /// In the event the buffer runs out before a null byte, the offset will be
-    /// reset and an error returned.
+    /// In the event the buffer runs out before a null byte, or what comes before
+    /// it is not UTF-8, the offset will be reset and an error returned.
     pub fn read_cstring(&mut self) -> Result<String> {
         let original_offset = self.offset;
-        let mut s = String::new();
 
         while self.offset < self.inner.len() {
-            let chr = self.inner[self.offset];
-            if chr == 0x0 {
+            if self.inner[self.offset] == 0x0 {
+                let bytes = self.inner[original_offset..self.offset].to_vec();
+                let s = match String::from_utf8(bytes) {
+                    Ok(s) => s,
+                    Err(e) => {
+                        self.offset = original_offset;
+                        return Err(e.into());
+                    }
+                };
+
                 // Count the final null byte as read
                 self.offset += 1;
                 return Ok(s);
             }
 
-            s.push(chr as char);
             self.offset += 1;
         }
         self.offset = original_offset;
-- 
2.43.0


From b64dedc1f1f0b089e838033cda74ef67629ce3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:34 +0000
Subject: [PATCH 28/30] fix: bits() of an RSA key counts the bits of its
 modulus, not of the bytes that hold it

---
 src/ssh/pubkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 3af5487..a14b455 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -322,7 +322,10 @@ impl PublicKey {
     pub fn bits(&self) -> usize {
         match self.kind {
             // For RSA public key the size of the key is the number of bits of the modulus
-            PublicKeyKind::Rsa(ref k) => k.n.len() * 8,
+            PublicKeyKind::Rsa(ref k) => match k.n.iter().position(|b| *b != 0) {
+                Some(i) => (k.n.len() - i) * 8 - k.n[i].leading_zeros() as usize,
+                None => 0,
+            },
             // ECDSA key size depends on the curve
             PublicKeyKind::Ecdsa(ref k) => match k.curve.kind {
                 CurveKind::Nistp256 => 256,
-- 
2.43.0


From b45455b24842f560187343167967ae5e4dbb6abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:34 +0000
Subject: [PATCH 29/30] fix: FIDO errors are displayed without a stray letter

---
 src/fido/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/mod.rs b/src/fido/mod.rs
index ffb3d30..86ec891 100644
--- a/src/fido/mod.rs
+++ b/src/fido/mod.rs
@@ -35,7 +35,7 @@ impl std::fmt::Display for Error {
             Self::CborFormat(s) => s.to_string(),
             Self::Unknown(s) => s.to_string(),
         };
-        write!(f, "s{}", msg)
+        write!(f, "{}", msg)
     }
 }
 
-- 
2.43.0


From 596d56abba83f154c039ebdaf58c33ff607d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:06 +0000
Subject: [PATCH 30/30] fix: the short name of an ECDSA security key
 certificate says that it is a certificate

---
 src/ssh/keytype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/keytype.rs b/src/ssh/keytype.rs
index e2a91cf..dbab50c 100644
--- a/src/ssh/keytype.rs
+++ b/src/ssh/keytype.rs
@@ -237,7 +237,7 @@ impl KeyType {
             "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com" => KeyType {
                 name: "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
                 plain: "sk-ecdsa-sha2-nistp256@openssh.com",
-                short_name: "ECDSA-SK",
+                short_name: "ECDSA-SK-CERT",
                 is_cert: true,
                 is_sk: true,
                 kind: KeyTypeKind::EcdsaCert,
-- 
2.43.0

