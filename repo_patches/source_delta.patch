From 3a6c0ba75a63d7e8a262d251eaadfd5b2a723f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 01/45] fix: bbs message index equal to the generator count is
 an error, not a panic

---
 libzmix/bbs/src/prover.rs   | 2 +-
 libzmix/bbs/src/verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..faa6602 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
-- 
2.43.0


From ca7555a56d33236acb91128c2f44adffe057fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 02/45] fix: bbs blind signing rejects known-message indices
 beyond the key instead of panicking

---
 libzmix/bbs/src/signature.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..22741f5 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -160,6 +160,13 @@ impl BlindSignature {
             verkey.message_count(),
             messages.len()
         );
+        for i in messages.keys() {
+            check_verkey_message!(
+                *i >= verkey.message_count(),
+                verkey.message_count(),
+                *i
+            );
+        }
         signkey.validate()?;
         verkey.validate()?;
         let e = rand_non_zero_fr();
-- 
2.43.0


From 023702770c120d3f9c8a9b6053c8c5ac111e0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 03/45] fix: bbs verifier accepts a proof only if it discloses
 the requested messages

---
 libzmix/bbs/src/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index faa6602..d48d7a8 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -46,6 +46,17 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        // The proof must disclose exactly what was requested
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
-- 
2.43.0


From abf404705501c9a27c27abdf22690981783330af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 04/45] fix: bbs decoders reject truncated input instead of
 panicking

---
 libzmix/bbs/src/keys.rs    |  8 ++++++--
 libzmix/bbs/src/lib.rs     | 12 +++++++++++-
 libzmix/bbs/src/pok_sig.rs |  9 +++++++--
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..3e10349 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,7 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        if data.len() < 4 || (data.len() - 4) % g1_size != 0 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -132,9 +132,13 @@ impl PublicKey {
         let h0 = GeneratorG1(G1::deserialize(&mut c, compressed)?);
 
         let mut h_bytes = [0u8; 4];
-        c.read_exact(&mut h_bytes).unwrap();
+        c.read_exact(&mut h_bytes)?;
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        // what follows must be exactly the message generators
+        if data.len() - c.position() as usize != h_size * g1_size {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..ccb5ab8 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -553,6 +553,9 @@ impl ProofRequest {
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
         let offset = 4 + bitvector_len;
+        if data.len() < offset {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(offset, data.len()).into());
+        }
         let revealed_messages = bitvector_to_revealed(&data[4..offset]);
         let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
         Ok(Self {
@@ -647,11 +650,18 @@ impl SignatureProof {
         }
 
         let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
+        if data.len() < proof_len + 4 {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(proof_len + 4, data.len()).into());
+        }
         let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
 
         let mut offset = proof_len;
         let revealed_messages_len = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
         offset += 4;
+        let expected = offset + revealed_messages_len * (4 + FR_COMPRESSED_SIZE);
+        if data.len() < expected {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(expected, data.len()).into());
+        }
         let mut end = offset + 4;
 
         let mut revealed_messages = BTreeMap::new();
@@ -661,7 +671,7 @@ impl SignatureProof {
             offset = end;
             end = offset + FR_COMPRESSED_SIZE;
 
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
+            let m = SignatureMessage::try_from(&data[offset..end])?;
 
             offset = end;
             end = offset + 4;
diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..c044bad 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -450,9 +450,9 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        if data.len() < g1_size * 3 + 4 {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3 + 4),
             }));
         }
         let mut c = Cursor::new(data);
@@ -474,6 +474,11 @@ impl PoKOfSignatureProof {
 
         offset = end;
         end = offset + proof1_bytes;
+        if data.len() < end {
+            return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
+                msg: format!("Invalid proof bytes. Expected {}", end),
+            }));
+        }
         let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
 
         let proof_vc_2 = ProofG1::from_bytes(&data[end..], g1_size, compressed)?;
-- 
2.43.0


From 0331cf3e4f5f80fd17ea7cc2cb8c93f026feec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 05/45] fix: bbs response lookup on a proof with fewer than two
 responses is an error

---
 libzmix/bbs/src/pok_sig.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index c044bad..9d4a708 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,12 +325,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
+        let message_count = self.proof_vc_2.responses.len().saturating_sub(2);
+        if msg_idx >= message_count {
             return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    msg_idx, message_count
                 ),
             }));
         }
-- 
2.43.0


From 29fcbe1ab657963b524ee3723d6e3420368531e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 06/45] fix: decode PS proofs over the other group with that
 group's element size

ProofOtherGroup was instantiated with SIGNATURE_GROUP_SIZE, so from_bytes could
not decode the output of to_bytes (the element sizes of G1 and G2 differ).
---
 libzmix/src/signatures/ps/mod.rs     | 4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..e7db392 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,7 +7,7 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
 // Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
-- 
2.43.0


From b3c8af58330c1989178faf58836f317710302053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 07/45] fix: PS proof verification rejects revealed indices the
 key does not have

An index outside the verification key made verify panic (index out of bounds,
or a subtraction overflow when more messages are revealed than the key has),
and get_resp_for_message panicked on a proof without responses.
---
 libzmix/src/signatures/ps/pok_sig.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index e7db392..5659bff 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        let msg_count = self.proof_vc.responses.len().saturating_sub(1);
+        if msg_idx >= msg_count {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    msg_idx, msg_count
                 ),
             }
             .into());
@@ -211,6 +211,15 @@ impl PoKOfSignatureProof {
             return Ok(false);
         }
 
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
+
         // +1 for `t`
         let hidden_msg_count = vk.Y_tilde.len() - revealed_msgs.len() + 1;
         let mut bases = OtherGroupVec::with_capacity(hidden_msg_count);
-- 
2.43.0


From 127e48185c758afc19ca0b5dec9f5626e68f71ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 08/45] fix: Groth signature verification requires one
 signature element per message

---
 .../src/signatures/delg_cred_cdd/groth_sig.rs | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..2fe4d25 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -211,6 +211,13 @@ impl Groth1Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
@@ -262,6 +269,13 @@ impl Groth1Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
@@ -383,6 +397,13 @@ impl Groth2Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
@@ -433,6 +454,13 @@ impl Groth2Sig {
             }
             .into());
         }
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
-- 
2.43.0


From 873e55568f566f49b4123cca4111c4a1cd3aa6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 09/45] fix: delegation chain checks reject missing links,
 empty attributes and out-of-order levels instead of panicking

---
 .../src/signatures/delg_cred_cdd/issuer.rs    | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..d21f95b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,10 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                match self.attributes.as_slice().last() {
+                    Some(a) => *a == vk.0,
+                    None => false,
+                }
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
@@ -59,6 +62,13 @@ macro_rules! impl_CredLink {
                     }
                     .into());
                 }
+                if self.signature.T.len() != self.attributes.len() {
+                    return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                        expected: self.signature.T.len(),
+                        given: self.attributes.len(),
+                    }
+                    .into());
+                }
                 if !self.has_verkey(delegatee_vk) {
                     return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
                 }
@@ -199,7 +209,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && link.level != self.odd_links[self.odd_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -222,7 +232,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && link.level != self.even_links[self.even_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
@@ -275,7 +285,7 @@ impl CredChain {
         for i in 1..=self.size() {
             let r = if i % 2 == 1 {
                 let idx = i / 2;
-                let link = &self.odd_links[idx];
+                let link = self.get_odd_link(idx)?;
                 if link.level != i {
                     return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                         expected: i,
@@ -285,7 +295,7 @@ impl CredChain {
                 }
                 link.verify(odd_level_vks[idx], even_level_vks[idx], setup_params_1)?
             } else {
-                let link = &self.even_links[(i / 2) - 1];
+                let link = self.get_even_link((i / 2) - 1)?;
                 if link.level != i {
                     return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                         expected: i,
@@ -329,9 +339,9 @@ impl CredChain {
         let mut total_attrib_count = 0;
         for i in 1..=self.size() {
             if i % 2 == 1 {
-                total_attrib_count += self.odd_links[i / 2].attribute_count() + 1;
+                total_attrib_count += self.get_odd_link(i / 2)?.attribute_count() + 1;
             } else {
-                total_attrib_count += self.even_links[(i / 2) - 1].attribute_count() + 1;
+                total_attrib_count += self.get_even_link((i / 2) - 1)?.attribute_count() + 1;
             }
         }
         // Vector that holds powers of the random value created above
@@ -342,7 +352,7 @@ impl CredChain {
         for i in 1..=self.size() {
             if i % 2 == 1 {
                 let idx = i / 2;
-                let link = &self.odd_links[idx];
+                let link = self.get_odd_link(idx)?;
                 if link.level != i {
                     return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                         expected: i,
@@ -364,7 +374,7 @@ impl CredChain {
                 );
                 r_vec_offset += link.attributes.len() + 1;
             } else {
-                let link = &self.even_links[(i / 2) - 1];
+                let link = self.get_even_link((i / 2) - 1)?;
                 if link.level != i {
                     return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                         expected: i,
@@ -408,11 +418,11 @@ impl CredChain {
         let mut new_chain = CredChain::new();
         for i in 1..=size {
             if (i % 2) == 1 {
-                new_chain.odd_links.push(self.odd_links[i / 2].clone());
+                new_chain.odd_links.push(self.get_odd_link(i / 2)?.clone());
             } else {
                 new_chain
                     .even_links
-                    .push(self.even_links[(i / 2) - 1].clone());
+                    .push(self.get_even_link((i / 2) - 1)?.clone());
             }
         }
         Ok(new_chain)
-- 
2.43.0


From c94b6b6bb6be78d31746f95fd6cde83acf56060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 10/45] fix: offset the batching powers of level-2 Groth links
 so that links of a chain cannot cancel each other

---
 libzmix/src/signatures/delg_cred_cdd/groth_sig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 2fe4d25..afc70d2 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -520,7 +520,7 @@ impl Groth2Sig {
             temp.push(var_time_mul_scl_mul_with_same_field_element!(
                 G1,
                 G1LookupTable,
-                r_vec[i + 1],
+                r_vec[r_vec_offset + i + 1],
                 &setup_params.g1,
                 &verkey.0,
                 &negR
-- 
2.43.0


From 10faf95eccd8dec2c930098fd618e0d77cd8775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 11/45] fix: encode the value of a Shamir share instead of
 recursing forever

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From 74be6102bc45ed9afe4359d4800945d498152e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 12/45] fix: decode every commitment of a Feldman or Pedersen
 verifier and check the length

---
 ursa_sharing/src/feldman.rs  |  8 ++++++--
 ursa_sharing/src/pedersen.rs | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..cfbf246 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -175,10 +175,14 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
+        let expected = end + R::Size::to_usize() * cs;
+        if value.len() != expected {
+            return Err(SharingError::PedersenVerifierMinSize(expected, value.len()));
+        }
         let mut commitments = Vec::with_capacity(cs);
-        offset = end;
-        end += R::Size::to_usize();
         for _ in 0..cs {
+            offset = end;
+            end += R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..8b9d565 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -186,9 +186,9 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
     type Error = SharingError;
 
     fn try_from(value: &[u8]) -> SharingResult<Self> {
-        if value.len() < R::Size::to_usize() * 2 + 4 {
+        if value.len() < R::Size::to_usize() * 3 + 4 {
             return Err(SharingError::PedersenVerifierMinSize(
-                R::Size::to_usize() * 2 + 4,
+                R::Size::to_usize() * 3 + 4,
                 value.len(),
             ));
         }
@@ -207,10 +207,14 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
+        let expected = end + R::Size::to_usize() * cs;
+        if value.len() != expected {
+            return Err(SharingError::PedersenVerifierMinSize(expected, value.len()));
+        }
         let mut commitments = Vec::with_capacity(cs);
-        offset = end;
-        end += R::Size::to_usize();
         for _ in 0..cs {
+            offset = end;
+            end += R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
-- 
2.43.0


From 579916da52679bdc6cf4bf8ef4ae859d3f465197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 13/45] fix: Pedersen share checks need enough commitments and
 a blinding share at the same identifier

---
 ursa_sharing/src/pedersen.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index 8b9d565..a32cbd3 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,12 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() < self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
+        if share.identifier != blind_share.identifier {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From 38ae0986c533141f81e7539462ae184eb05c0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 14/45] fix: forget blinded common attributes of earlier proofs
 when verifying

---
 libursa/src/cl/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..fd5ebb8 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -224,6 +224,11 @@ impl ProofVerifier {
 
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
+        // Blinded values seen in a proof verified earlier must not influence this one
+        for m_hat in self.common_attributes.values_mut() {
+            *m_hat = None;
+        }
+
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
 
         for idx in 0..proof.proofs.len() {
-- 
2.43.0


From 5c6207167a62a26c2799253860bed36c44167e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 15/45] fix: compute predicate differences without i32 overflow

---
 libursa/src/cl/helpers.rs |  2 +-
 libursa/src/cl/mod.rs     | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..5f80d3e 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -475,7 +475,7 @@ fn largest_square_less_than(delta: usize) -> usize {
 
 //Express the natural number `delta` as a sum of four integer squares,
 // i.e `delta = a^2 + b^2 + c^2 + d^2` using Lagrange's four-square theorem
-pub fn four_squares(delta: i32) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
+pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
     trace!("Helpers::four_squares: >>> delta: {:?}", delta);
 
     if delta < 0 {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..c0a3499 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -939,21 +939,24 @@ pub struct Predicate {
 }
 
 impl Predicate {
-    pub fn get_delta(&self, attr_value: i32) -> i32 {
+    pub fn get_delta(&self, attr_value: i32) -> i64 {
+        // the difference of two i32 does not always fit into i32
+        let (attr_value, value) = (i64::from(attr_value), i64::from(self.value));
         match self.p_type {
-            PredicateType::GE => attr_value - self.value,
-            PredicateType::GT => attr_value - self.value - 1,
-            PredicateType::LE => self.value - attr_value,
-            PredicateType::LT => self.value - attr_value - 1,
+            PredicateType::GE => attr_value - value,
+            PredicateType::GT => attr_value - value - 1,
+            PredicateType::LE => value - attr_value,
+            PredicateType::LT => value - attr_value - 1,
         }
     }
 
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
+        let value = i64::from(self.value);
         match self.p_type {
-            PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
-            PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::GE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(value + 1).to_string()),
+            PredicateType::LE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(value - 1).to_string()),
         }
     }
 
-- 
2.43.0


From 655cc28c93aca2f7e64b1d3d9eb4a48d732a62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 16/45] fix: tie predicate proofs to the credential attribute
 they are about

---
 libursa/src/cl/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index fd5ebb8..fe62f5a 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -435,6 +435,17 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            // The predicate must be about the attribute signed in the credential
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Blinded value of predicate attribute '{}' different from the one in proof.m",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From b4d28198e645628f6a5641f62856c55b771ffab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 17/45] fix: check that the hashed commitments are those of the
 presented sub proofs

---
 libursa/src/cl/mod.rs      | 25 +++++++++++++++++++++++++
 libursa/src/cl/verifier.rs | 11 +++++++++++
 2 files changed, 36 insertions(+)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index c0a3499..768e0ba 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -1021,6 +1021,20 @@ pub struct PrimaryProof {
     ne_proofs: Vec<PrimaryPredicateInequalityProof>,
 }
 
+impl PrimaryProof {
+    /// Values of the proof that are hashed into the challenge, in the order of `PrimaryInitProof::as_c_list`
+    fn as_c_list(&self) -> UrsaCryptoResult<Vec<Vec<u8>>> {
+        let mut c_list: Vec<Vec<u8>> = vec![self.eq_proof.a_prime.to_bytes()?];
+        for ne_proof in self.ne_proofs.iter() {
+            for i in 0..constants::ITERATION {
+                c_list.push(ne_proof.committed_value(&i.to_string())?.to_bytes()?);
+            }
+            c_list.push(ne_proof.committed_value("DELTA")?.to_bytes()?);
+        }
+        Ok(c_list)
+    }
+}
+
 #[cfg_attr(feature = "serde", derive(Serialize))]
 #[derive(Debug, PartialEq, Eq)]
 pub struct PrimaryEqualProof {
@@ -1073,6 +1087,17 @@ pub struct PrimaryPredicateInequalityProof {
     predicate: Predicate,
 }
 
+impl PrimaryPredicateInequalityProof {
+    fn committed_value(&self, key: &str) -> UrsaCryptoResult<&BigNumber> {
+        self.t.get(key).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                format!("Value by key '{}' not found in proof.t", key),
+            )
+        })
+    }
+}
+
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct NonRevocProof {
diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index fe62f5a..7636f15 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -230,6 +230,7 @@ impl ProofVerifier {
         }
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
+        let mut c_list: Vec<Vec<u8>> = Vec::new();
 
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
@@ -255,6 +256,7 @@ impl ProofVerifier {
                     )?
                     .as_slice()?,
                 );
+                c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
@@ -306,6 +308,15 @@ impl ProofVerifier {
                 &credential.non_credential_schema,
                 &credential.sub_proof_request,
             )?)?;
+            c_list.extend_from_slice(&proof_item.primary_proof.as_c_list()?);
+        }
+
+        // The challenge must depend on the values the sub proofs really contain
+        if c_list != proof.aggregated_proof.c_list {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Committed values not correspond to the values in sub proofs",
+            ));
         }
 
         let mut values: Vec<Vec<u8>> = Vec::new();
-- 
2.43.0


From 2809d40b2c45cf4ce1247ad0bb578c478b035d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 18/45] fix: reject presentations whose response for the
 signature exponent is out of range

---
 libursa/src/cl/verifier.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 7636f15..9d7ae54 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -1,5 +1,5 @@
 use bn::BigNumber;
-use cl::constants::{ITERATION, LARGE_E_START_VALUE};
+use cl::constants::{ITERATION, LARGE_ETILDE, LARGE_E_START_VALUE};
 use cl::hash::get_hash_as_int;
 use cl::helpers::*;
 use cl::*;
@@ -481,6 +481,14 @@ impl ProofVerifier {
         trace!("ProofVerifier::_verify_equality: >>> p_pub_key: {:?}, proof: {:?}, c_hash: {:?}, cred_schema: {:?}, sub_proof_request: {:?}",
                p_pub_key, proof, c_hash, cred_schema, sub_proof_request);
 
+        // The response for `e` of an honest prover is `e_tilde + c * (e - 2^LARGE_E_START)`
+        if proof.e.num_bits()? as usize > LARGE_ETILDE + 1 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Blinded value of the signature exponent is out of range",
+            ));
+        }
+
         let unrevealed_attrs = cred_schema
             .attrs
             .union(&non_cred_schema.attrs)
-- 
2.43.0


From 3d8622efde2d5b317f28c2a2062998f1b7b8e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 19/45] fix: require a non revocation proof when the verifier
 was given the revocation registry

---
 libursa/src/cl/verifier.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 9d7ae54..51fc3b9 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -257,6 +257,15 @@ impl ProofVerifier {
                     .as_slice()?,
                 );
                 c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
+            } else if credential.pub_key.r_key.is_some()
+                && credential.rev_reg.is_some()
+                && credential.rev_key_pub.is_some()
+            {
+                // The registry was given, so the credential must be shown to be not revoked
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Non revocation proof not found",
+                ));
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
-- 
2.43.0


From fbe3b11d9ad3a12aa80af56fb69f2210b0cbb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 20/45] fix: return an error instead of panicking when the
 proof of blinded secrets lacks a response

---
 libursa/src/cl/issuer.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..6a437f4 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1045,7 +1045,15 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap = blinded_cred_secrets_correctness_proof
+                    .m_caps
+                    .get(attr)
+                    .ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::InvalidStructure,
+                            format!("Value by key '{}' not found in m_caps", attr),
+                        )
+                    })?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1055,7 +1063,24 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let m_cap = blinded_cred_secrets_correctness_proof
+                .m_caps
+                .get(key)
+                .ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in m_caps", key),
+                    )
+                })?;
+            let r_cap = blinded_cred_secrets_correctness_proof
+                .r_caps
+                .get(key)
+                .ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in r_caps", key),
+                    )
+                })?;
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1068,7 +1093,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        &r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
-- 
2.43.0


From 07549074b99790c2b67fb3cb754add29792df2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 21/45] fix: refuse to sign a known attribute that the prover
 also blinded

---
 libursa/src/cl/issuer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 6a437f4..b9298ec 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1244,6 +1244,14 @@ impl Issuer {
             .iter()
             .filter(|&(_, v)| v.is_known())
         {
+            // Otherwise the prover could shift a value that the issuer vouches for
+            if blinded_cred_secrets.hidden_attributes.contains(key) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    format!("Attribute '{}' is both known and blinded", key),
+                ));
+            }
+
             let pk_r = p_pub_key.r.get(key).ok_or_else(|| {
                 err_msg(
                     UrsaCryptoErrorKind::InvalidStructure,
-- 
2.43.0


From caebd9a3205c4738220c209d54c20d89f4f2d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 22/45] fix: decompose large multiples of 8 into four squares
 without an endless search

---
 libursa/src/cl/helpers.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 5f80d3e..1ddcd8f 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -488,7 +488,14 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         ));
     }
 
-    let d = delta as usize;
+    let mut d = delta as usize;
+    // Squares are 0, 1 or 4 modulo 8: all four roots of a multiple of 8 are even. Without this
+    // the search below takes practically forever for numbers like 2 * 4^k.
+    let mut scale = 1;
+    while d != 0 && d % 8 == 0 {
+        d /= 4;
+        scale *= 2;
+    }
     let mut roots: [usize; 4] = [largest_square_less_than(d), 0, 0, 0];
 
     'outer: for i in (1..=roots[0]).rev() {
@@ -525,10 +532,10 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
     }
 
     let res = hashmap![
-        "0".to_string() => BigNumber::from_dec(&roots[0].to_string()[..])?,
-        "1".to_string() => BigNumber::from_dec(&roots[1].to_string()[..])?,
-        "2".to_string() => BigNumber::from_dec(&roots[2].to_string()[..])?,
-        "3".to_string() => BigNumber::from_dec(&roots[3].to_string()[..])?
+        "0".to_string() => BigNumber::from_dec(&(scale * roots[0]).to_string()[..])?,
+        "1".to_string() => BigNumber::from_dec(&(scale * roots[1]).to_string()[..])?,
+        "2".to_string() => BigNumber::from_dec(&(scale * roots[2]).to_string()[..])?,
+        "3".to_string() => BigNumber::from_dec(&(scale * roots[3]).to_string()[..])?
     ];
 
     trace!("Helpers::four_squares: <<< res: {:?}", res);
-- 
2.43.0


From 9f22db58efe950249cea312c8cbbb86067353c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:54 +0000
Subject: [PATCH 23/45] fix: do not publish the revocation tail that makes a
 witness for any index

---
 libursa/src/cl/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 768e0ba..ad139d8 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -560,7 +560,13 @@ impl RevocationTailsGenerator {
             return Ok(None);
         }
 
-        let tail = Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?;
+        // The tail with index L + 1 must stay unknown: with it a witness can be computed for any
+        // index whether it is revoked or not. Nothing refers to it, so its place stays empty.
+        let tail = if self.current_index == (self.size + 1) / 2 {
+            Tail::new_inf()?
+        } else {
+            Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?
+        };
 
         self.current_index += 1;
 
-- 
2.43.0


From 1c9aad466e6ab0b831760c887ab6fee7329a3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 24/45] fix: reject revocation indices outside the registry

---
 libursa/src/cl/issuer.rs | 25 +++++++++++++++++--------
 libursa/src/cl/mod.rs    | 19 ++++++++++++++++---
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index b9298ec..03fa911 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -537,7 +537,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
@@ -638,7 +638,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.add(tail).unwrap();
@@ -744,13 +744,13 @@ impl Issuer {
 
         let prev_acc = rev_reg.accum;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
                 rev_reg.accum = rev_reg.accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
                 rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
             })?;
@@ -959,7 +959,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1325,8 +1325,17 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        if rev_idx == 0 || rev_idx > max_cred_num {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                format!(
+                    "Revocation index {} is not within 1..={}",
+                    rev_idx, max_cred_num
+                ),
+            ));
+        }
+        Ok(max_cred_num + 1 - rev_idx)
     }
 
     fn _new_non_revocation_credential(
@@ -1406,7 +1415,7 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         let rev_reg_delta = if issuance_by_default {
             None
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index ad139d8..d60b0fd 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -681,6 +681,19 @@ pub struct Witness {
 }
 
 impl Witness {
+    /// Index of the tail that another credential `j` contributes to the witness of `rev_idx`
+    fn _get_index(max_cred_num: u32, j: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        for idx in &[j, rev_idx] {
+            if *idx == 0 || *idx > max_cred_num {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                    format!("Revocation index {} is not within 1..={}", idx, max_cred_num),
+                ));
+            }
+        }
+        Ok(max_cred_num + 1 - j + rev_idx)
+    }
+
     pub fn new<RTA>(
         rev_idx: u32,
         max_cred_num: u32,
@@ -706,7 +719,7 @@ impl Witness {
 
         issued.remove(&rev_idx);
         for j in issued.iter() {
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::_get_index(max_cred_num, *j, rev_idx)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega = omega.add(tail).unwrap();
             })?;
@@ -742,7 +755,7 @@ impl Witness {
                 continue;
             }
 
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::_get_index(max_cred_num, *j, rev_idx)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_denom = omega_denom.add(tail).unwrap();
             })?;
@@ -754,7 +767,7 @@ impl Witness {
                 continue;
             }
 
-            let index = max_cred_num + 1 - j + rev_idx;
+            let index = Witness::_get_index(max_cred_num, *j, rev_idx)?;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_num = omega_num.add(tail).unwrap();
             })?;
-- 
2.43.0


From 9b18e530d870fee7c92cf010da197d01de15617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 25/45] fix: leave the revocation registry unchanged when its
 update fails

---
 libursa/src/cl/issuer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 03fa911..e93a352 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -743,18 +743,21 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+        // the registry changes only if every tail could be read
+        let mut accum = prev_acc;
         for rev_idx in issued.iter() {
             let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
+                accum = accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
             let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
+                accum = accum.sub(tail).unwrap()
             })?;
         }
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
-- 
2.43.0


From 84d58d14777f6197ad95d32c293df2ee9639658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 26/45] fix: keep the sign when incrementing or decrementing a
 big number

---
 libursa/src/bn/openssl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ba7e82e..395d1de 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -499,15 +499,15 @@ impl BigNumber {
     }
 
     pub fn increment(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?;
         bn.add_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        Ok(bn)
     }
 
     pub fn decrement(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?;
         bn.sub_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        Ok(bn)
     }
 
     pub fn lshift1(&self) -> UrsaCryptoResult<BigNumber> {
-- 
2.43.0


From 7c7846c48ee8f9353a37ec751c077bc65ad88401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 27/45] fix: recognise 7 as a safe prime

---
 libursa/src/bn/openssl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 395d1de..41ec980 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -91,12 +91,13 @@ impl BigNumber {
         match ctx {
             Some(c) => {
                 // according to https://eprint.iacr.org/2003/186.pdf
-                // a safe prime is congruent to 2 mod 3
+                // a safe prime is congruent to 2 mod 3, except for 7
 
                 // a safe prime satisfies (p-1)/2 is prime. Since a
                 // prime is odd, We just need to divide by 2
                 Ok(
-                    self.modulus(&BigNumber::from_u32(3)?, Some(c))? == BigNumber::from_u32(2)?
+                    (self.modulus(&BigNumber::from_u32(3)?, Some(c))? == BigNumber::from_u32(2)?
+                        || *self == BigNumber::from_u32(7)?)
                         && self.is_prime(Some(c))?
                         && self.rshift1()?.is_prime(Some(c))?,
                 )
-- 
2.43.0


From a81edea995d05d2524e5d54a9974df8d6b4883f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 28/45] fix: refuse to split a secret into as many shares as
 the field has elements

---
 libursa/src/sharing/shamir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..556dd67 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -283,6 +283,11 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "field must be greater than 1".to_string(),
         ));
     }
+    if field <= &BigNumber::from_u32(total as usize)? {
+        return Err(CryptoError::GeneralError(
+            "field must be greater than the total number of shares".to_string(),
+        ));
+    }
     let element = Element {
         modulus: field.try_clone()?,
         value: BigNumber::from_bytes(secret)?,
-- 
2.43.0


From adc646081f923d6a479811611eedad310b59dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 29/45] fix: an empty byte string is no share instead of a
 panic

---
 libursa/src/sharing/shamir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index 556dd67..d0aeacb 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,9 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::ParseError("share is empty".to_string()));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
-- 
2.43.0


From be65ac3773ee126c046ddb9e6e673f324fc9b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 30/45] fix: subtract scalars modulo the group order when the
 difference is negative

---
 libursa/src/pair/amcl.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..a5caf2b 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -423,18 +423,11 @@ impl GroupOrderElement {
 
     /// (GroupOrderElement - GroupOrderElement) mod GroupOrder
     pub fn sub_mod(&self, r: &GroupOrderElement) -> UrsaCryptoResult<GroupOrderElement> {
-        //need to use modneg if sub is negative
-        let mut diff = self.bn;
-        diff.sub(&r.bn);
-        let mut zero = BIG::new();
-        zero.zero();
-
-        if diff < zero {
-            return Ok(GroupOrderElement {
-                bn: BIG::modneg(&diff, &BIG::new_ints(&CURVE_ORDER)),
-            });
-        }
-
+        // self - r = self + (-r) modulo the group order
+        let order = BIG::new_ints(&CURVE_ORDER);
+        let mut diff = BIG::modneg(&r.bn, &order);
+        diff.add(&self.bn);
+        diff.rmod(&order);
         Ok(GroupOrderElement { bn: diff })
     }
 
-- 
2.43.0


From bf05ebe1d934d9188abf8f0b632cba8037f84896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 31/45] fix: the pairing of two points at infinity is one

---
 libursa/src/pair/amcl.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index a5caf2b..36b13a6 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -552,6 +552,12 @@ impl Pair {
     pub const BYTES_REPR_SIZE: usize = MODBYTES * 16;
     /// e(PointG1, PointG2)
     pub fn pair(p: &PointG1, q: &PointG2) -> UrsaCryptoResult<Pair> {
+        // AMCL does not give one for two points at infinity
+        if p.point.is_infinity() && q.point.is_infinity() {
+            return Ok(Pair {
+                pair: FP12::new_int(1),
+            });
+        }
         let mut result = fexp(&ate(&q.point, &p.point));
         result.reduce();
 
@@ -560,6 +566,12 @@ impl Pair {
 
     /// e(PointG1, PointG2, PointG1_1, PointG2_1)
     pub fn pair2(p: &PointG1, q: &PointG2, r: &PointG1, s: &PointG2) -> UrsaCryptoResult<Pair> {
+        if p.point.is_infinity() && q.point.is_infinity() {
+            return Pair::pair(r, s);
+        }
+        if r.point.is_infinity() && s.point.is_infinity() {
+            return Pair::pair(p, q);
+        }
         let mut result = fexp(&ate2(&q.point, &p.point, &s.point, &r.point));
         result.reduce();
 
-- 
2.43.0


From 2ab50192e585de2d5cce2963436afeedb272a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 32/45] fix: the negation of the zero scalar is zero

---
 libursa/src/pair/amcl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 36b13a6..64b9eac 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -450,8 +450,9 @@ impl GroupOrderElement {
 
     /// - GroupOrderElement mod GroupOrder
     pub fn mod_neg(&self) -> UrsaCryptoResult<GroupOrderElement> {
-        let mut r = self.bn;
-        r = BIG::modneg(&r, &BIG::new_ints(&CURVE_ORDER));
+        let order = BIG::new_ints(&CURVE_ORDER);
+        let mut r = BIG::modneg(&self.bn, &order);
+        r.rmod(&order);
         Ok(GroupOrderElement { bn: r })
     }
 
-- 
2.43.0


From 10b5db4b4136cb1bcaf57d33b8bf0a3a4ab256de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 33/45] fix: verifiable encryption refuses a proof with another
 number of responses than the ciphertext has messages

---
 .../verifiable_encryption/cs_verifiable_encryption.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..b86a59d 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -354,6 +354,17 @@ pub fn reconstruct_blindings_ciphertext(
         ));
     }
 
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of messages {} is not equal to the number of messages in the ciphertext {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
+
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
 
-- 
2.43.0


From 3efe87ea5438f21fa61642be6af3c86686928c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 34/45] fix: inner-product and constraint-system verifiers
 refuse inconsistent lengths instead of panicking

---
 libzmix/bulletproofs_amcl/src/ipp.rs           | 15 ++++++++++++++-
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   |  8 ++++----
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs |  4 ++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..d46500b 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -225,7 +225,16 @@ impl IPP {
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        // The generators and their factors must all be of the length of the committed vectors.
+        if G_vec.len() != n
+            || H_vec.len() != n
+            || G_factors.len() != n
+            || H_factors.len() != n
+        {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
+
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -278,6 +287,10 @@ impl IPP {
     ) -> Result<(Vec<FieldElement>, Vec<FieldElement>, Vec<FieldElement>), BulletproofError> {
         // lg_n is the number of rounds of recursion
         let lg_n = L_vec.len();
+        if R_vec.len() != lg_n {
+            // Each round has one L and one R.
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
         if lg_n >= 32 {
             // 2 billion (2^31) multiplications should be enough for anyone
             // and this check prevents overflow in 1<<lg_n below.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 183493f..55c00ef 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -335,9 +335,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: n1,
             }
             .into());
@@ -388,9 +388,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index bdd342b..7527813 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -301,9 +301,9 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
-- 
2.43.0


From 3b7afc2d97dee4cfa35c689b42467f28dbd98162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 35/45] fix: inner-product verification takes the logarithm of
 an index as an integer, not as a float

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index d46500b..c5125ea 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -340,7 +340,9 @@ impl IPP {
         s.push(product_chal_inv);
         for i in 1..n {
             // From "Computing scalars" in section 6.2 of the paper
-            let lg_i = (i as f32).log2() as usize;
+            // Floor of the logarithm of i. This is not calculated as a float since that rounds up
+            // when i is large and just below a power of 2.
+            let lg_i = (usize::max_value().count_ones() - 1 - i.leading_zeros()) as usize;
             let k = 1 << lg_i;
             // The challenges are stored in "creation order" as [x_k,...,x_1],
             // so x_{lg(i)+1} is indexed by (lg_n-1) - lg_i. Choosing challenges_sq since there is
-- 
2.43.0


From 7ad50a51458eca3fb9f986184efc82ce6d12174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 36/45] fix: alternative set membership ties its products to
 the committed toggles

---
 .../bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 52fe0a6..125c805 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -58,6 +58,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        // The multiplier is for this toggle and not for some other bit.
+        cs.constrain(bit_var - toggles[i].variable);
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From 38b3fd8ef24f104236d5c5b80d18299d7a8bd0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 37/45] fix: range and alternative set membership proofs take
 integers of all 64 bits

---
 .../src/r1cs/gadgets/bound_check.rs           | 19 ++++++++++---------
 .../src/r1cs/gadgets/set_membership_alt.rs    |  7 ++++---
 libzmix/bulletproofs_amcl/src/utils/mod.rs    |  7 +++++++
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 9ed8056..251f1e3 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Verifier};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -25,12 +26,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_element_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_element_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_element_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -57,26 +58,26 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_element_from_u64(val),
         blinding.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_element_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_element_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_element_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_element_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_element_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 125c805..2b4e01d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, Prover, R1CSProof, Verifier};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -55,9 +56,9 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             toggles[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_element_from_u64(items[i]))),
         )?;
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_element_from_u64(items[i]));
         // The multiplier is for this toggle and not for some other bit.
         cs.constrain(bit_var - toggles[i].variable);
 
@@ -114,7 +115,7 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     // The toggle vector sum should be 1
     vector_sum_constraints(prover, toggles_vars, 1);
 
-    let _value = FieldElement::from(value);
+    let _value = field_element_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/libzmix/bulletproofs_amcl/src/utils/mod.rs b/libzmix/bulletproofs_amcl/src/utils/mod.rs
index 5b6c447..7a90d8f 100644
--- a/libzmix/bulletproofs_amcl/src/utils/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/utils/mod.rs
@@ -7,6 +7,13 @@ use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem::GroupElement;
 use amcl_wrapper::group_elem_g1::G1;
 
+/// Field element for an integer of 64 bits. `FieldElement::from` keeps the integer in a single limb,
+/// which has fewer than 64 bits.
+pub fn field_element_from_u64(n: u64) -> FieldElement {
+    FieldElement::from((n >> 32) as u32) * FieldElement::from(1u64 << 32)
+        + FieldElement::from(n as u32)
+}
+
 pub fn get_generators(prefix: &str, n: usize) -> Vec<G1> {
     let mut gens: Vec<G1> = Vec::with_capacity(n);
     for i in 1..n + 1 {
-- 
2.43.0


From 55a93b8bc859e2de09d3ca6d8d2a48d4b56477da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 38/45] fix: gadget verifiers refuse too few commitments
 instead of panicking

---
 libzmix/bulletproofs_amcl/src/errors.rs         | 17 +++++++++++++++++
 .../src/r1cs/gadgets/bound_check.rs             |  2 ++
 .../src/r1cs/gadgets/non_zero.rs                |  2 ++
 .../src/r1cs/gadgets/set_membership.rs          |  2 ++
 .../src/r1cs/gadgets/set_membership_alt.rs      |  2 ++
 .../src/r1cs/gadgets/set_non_membership.rs      |  2 ++
 .../r1cs/gadgets/sparse_merkle_tree_4_ary.rs    |  2 ++
 .../r1cs/gadgets/sparse_merkle_tree_8_ary.rs    |  2 ++
 8 files changed, 31 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/errors.rs b/libzmix/bulletproofs_amcl/src/errors.rs
index aa47636..e823874 100644
--- a/libzmix/bulletproofs_amcl/src/errors.rs
+++ b/libzmix/bulletproofs_amcl/src/errors.rs
@@ -214,6 +214,23 @@ macro_rules! check_for_blindings_or_rng {
     }};
 }
 
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() < $expected_length {
+            Err(R1CSError::from(R1CSErrorKind::GadgetError {
+                description: format!(
+                    "Expected at least {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            }))
+        } else {
+            Ok(())
+        }
+    }};
+}
+
 #[macro_export]
 macro_rules! check_for_input_and_blindings_length {
     ( $input:expr, $blindings:expr, $expected_length:expr ) => {{
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 251f1e3..f64dc1c 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -101,6 +101,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
index 234321d..062526d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
@@ -37,6 +37,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
 
     let var_val_inv = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
index c5207d3..6f11993 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
@@ -83,6 +83,8 @@ pub fn verify_set_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_for_commitments_length!(commitments, set_length + 1)?;
+
     let mut diff_vars = vec![];
 
     let var_val = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 2b4e01d..107f83a 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -138,6 +138,8 @@ pub fn verify_set_membership_alt(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_for_commitments_length!(commitments, set_length + 1)?;
+
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
index d14ebf3..54cc8e7 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
@@ -84,6 +84,8 @@ pub fn verify_set_non_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_for_commitments_length!(commitments, 2 * set_length + 1)?;
+
     let mut diff_vars = vec![];
     let mut diff_inv_vars = vec![];
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index d88dedb..d997872 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -86,6 +86,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, if leaf_val.is_some() { 1 } else { 2 })?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index a82e21d..8a12fe1 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -87,6 +87,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, if leaf_val.is_some() { 1 } else { 2 })?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
-- 
2.43.0


From 70e92b9644585c77e32fb2a2bf87a1177e3eac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:33 +0000
Subject: [PATCH 39/45] fix: merkle tree gadgets refuse a path that is not as
 long as the tree is deep

---
 .../sparse_merkle_tree_4_ary.rs                   | 15 ++++++++++++++-
 .../sparse_merkle_tree_8_ary.rs                   | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a189273..1596edf 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -259,6 +259,19 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    // There is one level of siblings for each level of the tree, a shorter or longer path would make
+    // an inner node pass as a leaf or a leaf as an inner node.
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} nodes in the merkle proof but found {}",
+                depth * 3,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index c7140e2..b1f497e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -270,6 +270,19 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    // There is one level of siblings for each level of the tree, a shorter or longer path would make
+    // an inner node pass as a leaf or a leaf as an inner node.
+    if proof_nodes.len() != depth * (ARITY - 1) {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} nodes in the merkle proof but found {}",
+                depth * (ARITY - 1),
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From d36e9e113ac8a0f73fca98031ce77fc16f8b3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:35 +0000
Subject: [PATCH 40/45] fix: short messages decrypt again in the AES-CBC-HMAC,
 AES-GCM and ChaCha20-Poly1305 ciphers

---
 libursa/src/encryption/symm/aescbc.rs                | 2 +-
 libursa/src/encryption/symm/aescbc_asm.rs            | 2 +-
 libursa/src/encryption/symm/aesgcm.rs                | 6 +++---
 libursa/src/encryption/symm/aesgcm_asm.rs            | 6 +++---
 libursa/src/encryption/symm/chacha20poly1305.rs      | 4 ++--
 libursa/src/encryption/symm/chacha20poly1305_asm.rs  | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305.rs     | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305_asm.rs | 4 ++--
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..6d42617 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,7 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aescbc_asm.rs b/libursa/src/encryption/symm/aescbc_asm.rs
index b95e2d8..20a89d6 100644
--- a/libursa/src/encryption/symm/aescbc_asm.rs
+++ b/libursa/src/encryption/symm/aescbc_asm.rs
@@ -76,7 +76,7 @@ macro_rules! aes_cbc_hmac_impl {
                 let payload = ciphertext.into();
                 let cipher = OpenSslCipher::$cipherid();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + cipher.key_len() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm_asm.rs b/libursa/src/encryption/symm/aesgcm_asm.rs
index 6471f28..b477c43 100644
--- a/libursa/src/encryption/symm/aesgcm_asm.rs
+++ b/libursa/src/encryption/symm/aesgcm_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -21,7 +21,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -65,7 +65,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/chacha20poly1305_asm.rs b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
index 5d9fdf0..ec0ce01 100644
--- a/libursa/src/encryption/symm/chacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32, U36},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
index 92576f0..7c6df03 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U16, U24, U32, U48},
+        typenum::{Unsigned, U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From 6225a887902aef762d18eeb1b290978e2415d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:51 +0000
Subject: [PATCH 41/45] fix: keys and nonces of the wrong length are refused
 instead of panicking in the symmetric ciphers

---
 libursa/src/encryption/symm/mod.rs | 35 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..1c7324a 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,6 +81,9 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
+                        if key.len() != <<$name as NewAead>::KeySize as aead::generic_array::typenum::Unsigned>::to_usize() {
+                            return Err(E::custom("Invalid key size"));
+                        }
                         Ok($name::new(GenericArray::from_slice(key.as_slice())))
                     }
                 }
@@ -147,8 +150,12 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
     }
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
+        let key = key.as_ref();
+        if key.len() != <E as NewAead>::KeySize::to_usize() {
+            return Err(Error);
+        }
         Ok(Self {
-            encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
+            encryptor: <E as NewAead>::new(GenericArray::from_slice(key)),
         })
     }
 
@@ -165,7 +172,11 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = nonce.as_ref();
+        if nonce.len() != <E as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
+        let nonce = GenericArray::from_slice(nonce);
         let payload = Payload {
             msg: plaintext.as_ref(),
             aad: aad.as_ref(),
@@ -192,7 +203,11 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = nonce.as_ref();
+        if nonce.len() != <E as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
+        let nonce = GenericArray::from_slice(nonce);
         let payload = Payload {
             msg: ciphertext.as_ref(),
             aad: aad.as_ref(),
@@ -319,9 +334,12 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        if nonce.len() != self.noncesize() {
+            return Err(Error);
+        }
+        let nonce = GenericArray::from_slice(nonce);
         let payload = Payload { msg, aad };
-        self.encrypt(&nonce, payload)
+        self.encrypt(nonce, payload)
     }
 
     fn decrypt_easy(&self, aad: &[u8], ciphertext: &[u8]) -> Result<Vec<u8>, Error> {
@@ -329,9 +347,12 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        if nonce.len() != self.noncesize() {
+            return Err(Error);
+        }
+        let nonce = GenericArray::from_slice(nonce);
         let payload = Payload { msg, aad };
-        self.decrypt(&nonce, payload)
+        self.decrypt(nonce, payload)
     }
 }
 
-- 
2.43.0


From 7d156fb02f38a2278cfcff8d7579c797e6bc4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:41 +0000
Subject: [PATCH 42/45] fix: key exchange refuses keys and seeds of a wrong
 length instead of panicking or truncating them

---
 libursa/src/kex/secp256k1.rs | 26 +++++++++++++++++++++++++-
 libursa/src/kex/x25519.rs    | 15 +++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 33105b5..8a08e89 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -69,6 +69,11 @@ mod ecdh_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
@@ -150,6 +155,11 @@ mod ecdh_secp256k1 {
             match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut rng =
                             ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, PRIVATE_KEY_SIZE));
                         seed.zeroize();
@@ -158,7 +168,15 @@ mod ecdh_secp256k1 {
                         let d = D::digest(&sk[..]);
                         array_copy!(d.as_slice(), sk)
                     }
-                    KeyGenOption::FromSecretKey(ref s) => array_copy!(s, sk),
+                    KeyGenOption::FromSecretKey(ref s) => {
+                        if s.len() != PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::ParseError(format!(
+                                "Invalid private key length: {}",
+                                s.len()
+                            )));
+                        }
+                        array_copy!(s, sk)
+                    }
                 },
                 None => {
                     OsRng.fill_bytes(&mut sk);
@@ -183,6 +201,12 @@ mod ecdh_secp256k1 {
         where
             D: Digest<OutputSize = U32> + Default,
         {
+            if local_private_key.len() != PRIVATE_KEY_SIZE {
+                return Err(CryptoError::ParseError(format!(
+                    "Invalid private key length: {}",
+                    local_private_key.len()
+                )));
+            }
             let sk = k256::SecretKey::from_bytes(&local_private_key)
                 .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
 
diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 0ddd5ae..98def5c 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -10,6 +10,18 @@ use CryptoError;
 
 pub struct X25519Sha256;
 
+fn check_length(kind: &str, key: &[u8]) -> Result<(), CryptoError> {
+    if key.len() == 32 {
+        Ok(())
+    } else {
+        Err(CryptoError::ParseError(format!(
+            "Invalid {} key length: {}",
+            kind,
+            key.len()
+        )))
+    }
+}
+
 impl KeyExchangeScheme for X25519Sha256 {
     fn new() -> Self {
         Self
@@ -30,6 +42,7 @@ impl KeyExchangeScheme for X25519Sha256 {
                     (pk, sk)
                 }
                 KeyGenOption::FromSecretKey(ref s) => {
+                    check_length("private", &s[..])?;
                     let sk = StaticSecret::from(*array_ref!(&s[..], 0, 32));
                     let pk = X25519PublicKey::from(&sk);
                     (pk, sk)
@@ -53,6 +66,8 @@ impl KeyExchangeScheme for X25519Sha256 {
         local_private_key: &PrivateKey,
         remote_public_key: &PublicKey,
     ) -> Result<SessionKey, CryptoError> {
+        check_length("private", &local_private_key[..])?;
+        check_length("public", &remote_public_key[..])?;
         let sk = StaticSecret::from(*array_ref!(&local_private_key[..], 0, 32));
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
-- 
2.43.0


From d1409282662e9e99fdbf03ea9b7494e3a5c5da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:41 +0000
Subject: [PATCH 43/45] fix: signatures return an error for short seeds and
 invalid signer keys instead of panicking

---
 libursa/src/signatures/mod.rs       | 3 +--
 libursa/src/signatures/secp256k1.rs | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libursa/src/signatures/mod.rs b/libursa/src/signatures/mod.rs
index 7676b68..423b546 100644
--- a/libursa/src/signatures/mod.rs
+++ b/libursa/src/signatures/mod.rs
@@ -76,8 +76,7 @@ impl<'a, 'b, T: 'a + SignatureScheme> Signer<'a, 'b, T> {
         let sk = PrivateKey(self.key[..].to_vec());
         let (pubk, _) = self
             .scheme
-            .keypair(Some(KeyGenOption::FromSecretKey(sk)))
-            .unwrap();
+            .keypair(Some(KeyGenOption::FromSecretKey(sk)))?;
         Ok(pubk)
     }
 }
diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index e68d5ec..65a4a77 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -148,6 +148,11 @@ mod ecdsa_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
-- 
2.43.0


From 8f0a6e39178acfa7c2a4b11f0feae7e6b56fee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:57 +0000
Subject: [PATCH 44/45] fix: revocation registry delta JSON of the C interface
 used the type SignatureCorrectnessProof

---
 libursa/src/ffi/cl/issuer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 1a3dc3f..8476e91 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1687,7 +1687,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_to_json(
 
     check_useful_c_reference!(
         revocation_registry_delta,
-        SignatureCorrectnessProof,
+        RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam1
     );
     check_useful_c_ptr!(
@@ -1756,9 +1756,8 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_from_json(
         revocation_registry_delta_json
     );
 
-    let res = match serde_json::from_str::<SignatureCorrectnessProof>(
-        &revocation_registry_delta_json,
-    ) {
+    let res = match serde_json::from_str::<RevocationRegistryDelta>(&revocation_registry_delta_json)
+    {
         Ok(revocation_registry_delta) => {
             trace!(
                 "ursa_cl_revocation_registry_delta_from_json: revocation_registry_delta: {:?}",
-- 
2.43.0


From 01f71b6bcab9657d84979c783ae4a8c33f4a49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:57 +0000
Subject: [PATCH 45/45] fix: ursa_cl_issuer_merge_revocation_registry_deltas
 gave out an empty object for the merged delta

---
 libursa/src/ffi/cl/issuer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 8476e91..b376b8b 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1990,9 +1990,10 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
 
     let res = match revoc_reg_delta.merge(other_revoc_reg_delta) {
         Ok(_) => {
-            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: ()");
+            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: {:?}", revoc_reg_delta);
             unsafe {
-                *merged_revoc_reg_delta_p = Box::into_raw(Box::new(())) as *const c_void;
+                *merged_revoc_reg_delta_p =
+                    Box::into_raw(Box::new(revoc_reg_delta.clone())) as *const c_void;
                 trace!("ursa_cl_issuer_merge_revocation_registry_deltas: *merged_revoc_reg_delta_p: {:?}", *merged_revoc_reg_delta_p);
             }
             ErrorCode::Success
-- 
2.43.0

