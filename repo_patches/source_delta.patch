From c579ac82e78474923076aec49e2df277dcf7e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 01/24] fix: detect duplicate PSBT_GLOBAL_INPUT_COUNT records

The duplicate check looked at output_count, so a repeated input count was
accepted and an input count following the output count was rejected.
---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From 08e4e6599f094cd0fa1dcad4b2d6f33a93e668d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 02/24] fix: track the required v2 input and output records
 explicitly

An all-zero txid, an output index of u32::MAX, a zero amount and an empty
script doubled as 'not seen yet' markers: an output of amount zero could be
written but not read back, repeated records could be accepted and key data on
these records was ignored.
---
 src/v2/map/input.rs  | 47 ++++++++++++++++++++++--------------------
 src/v2/map/output.rs | 49 +++++++++++++++++++++++---------------------
 2 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..cecde6e 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -393,24 +393,26 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
+        // Placeholder, both values are set below from the (required) records.
         let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
         let mut rv = Self::new(&invalid);
+        let mut previous_txid: Option<Txid> = None;
+        let mut spent_output_index: Option<u32> = None;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => match pair.key.type_value {
+                    PSBT_IN_PREVIOUS_TXID => insert_required(&mut previous_txid, pair)?,
+                    PSBT_IN_OUTPUT_INDEX => insert_required(&mut spent_output_index, pair)?,
+                    _ => rv.insert_pair(pair)?,
+                },
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
-            return Err(DecodeError::MissingPreviousTxid);
-        }
-        if rv.spent_output_index == u32::MAX {
-            return Err(DecodeError::MissingSpentOutputIndex);
-        }
+        rv.previous_txid = previous_txid.ok_or(DecodeError::MissingPreviousTxid)?;
+        rv.spent_output_index = spent_output_index.ok_or(DecodeError::MissingSpentOutputIndex)?;
 
         #[cfg(feature = "silent-payments")]
         {
@@ -428,20 +430,6 @@ impl Input {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
-            PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let txid: Txid = Deserialize::deserialize(&raw_value)?;
-                self.previous_txid = txid;
-            }
-            PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let vout: u32 = Deserialize::deserialize(&raw_value)?;
-                self.spent_output_index = vout;
-            }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
                     self.sequence <= <raw_key: _>|<raw_value: Sequence>
@@ -656,6 +644,21 @@ impl Input {
     }
 }
 
+/// Stores the value of a required record, which has no key data and must appear only once.
+fn insert_required<T: Deserialize>(
+    slot: &mut Option<T>,
+    pair: raw::Pair,
+) -> Result<(), InsertPairError> {
+    if !pair.key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(pair.key));
+    }
+    if slot.is_some() {
+        return Err(InsertPairError::DuplicateKey(pair.key));
+    }
+    *slot = Some(Deserialize::deserialize(&pair.value)?);
+    Ok(())
+}
+
 impl Map for Input {
     fn get_pairs(&self) -> Vec<raw::Pair> {
         let mut rv: Vec<raw::Pair> = Default::default();
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..4132ce7 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -106,26 +106,29 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
+        // Placeholder, both values are set below from their records.
         let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
         let mut rv = Self::new(invalid);
+        let mut amount: Option<Amount> = None;
+        let mut script_pubkey: Option<ScriptBuf> = None;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => match pair.key.type_value {
+                    PSBT_OUT_AMOUNT => insert_required(&mut amount, pair)?,
+                    PSBT_OUT_SCRIPT => insert_required(&mut script_pubkey, pair)?,
+                    _ => rv.insert_pair(pair)?,
+                },
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
-            return Err(DecodeError::MissingValue);
-        }
+        rv.amount = amount.ok_or(DecodeError::MissingValue)?;
         // BIP-375 allows outputs to be missing scriptPubkey
         #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
-            return Err(DecodeError::MissingScriptPubkey);
-        }
+        let script_pubkey = Some(script_pubkey.ok_or(DecodeError::MissingScriptPubkey)?);
+        rv.script_pubkey = script_pubkey.unwrap_or_default();
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
@@ -139,21 +142,6 @@ impl Output {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
-            PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let amount: Amount = Deserialize::deserialize(&raw_value)?;
-                self.amount = amount;
-            }
-            PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
-                let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
-                self.script_pubkey = script;
-            }
-
             PSBT_OUT_REDEEM_SCRIPT => {
                 v2_impl_psbt_insert_pair! {
                     self.redeem_script <= <raw_key: _>|<raw_value: ScriptBuf>
@@ -265,6 +253,21 @@ impl Output {
     }
 }
 
+/// Stores the value of a required record, which has no key data and must appear only once.
+fn insert_required<T: Deserialize>(
+    slot: &mut Option<T>,
+    pair: raw::Pair,
+) -> Result<(), InsertPairError> {
+    if !pair.key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(pair.key));
+    }
+    if slot.is_some() {
+        return Err(InsertPairError::DuplicateKey(pair.key));
+    }
+    *slot = Some(Deserialize::deserialize(&pair.value)?);
+    Ok(())
+}
+
 impl Map for Output {
     fn get_pairs(&self) -> Vec<raw::Pair> {
         let mut rv: Vec<raw::Pair> = Default::default();
-- 
2.43.0


From 5c0b9138df2f2d5ac202e1dfecac30286f8da1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 03/24] fix: do not preallocate from the untrusted input and
 output counts

A PSBT claiming 2^60 inputs made deserialize panic with a capacity overflow
(or abort on allocation failure) instead of returning an error.
---
 src/v2/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..aed0f62 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,7 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            let mut inputs: Vec<Input> = Vec::new(); // The count is untrusted, do not preallocate.
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +641,7 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            let mut outputs: Vec<Output> = Vec::new(); // The count is untrusted, do not preallocate.
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From 8ce800f9870430b13d0f11d9366e334b79d08bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 04/24] fix: implement Display and source for DeserializeError
 and ExtractTxError

Both were todo!(), so printing a parse or extraction error panicked.
---
 src/v2/error.rs   | 24 ++++++++++++++++++++++--
 src/v2/extract.rs | 18 ++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..3b134e5 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => f.write_str("invalid magic"),
+            InvalidSeparator => f.write_str("invalid separator"),
+            NoMorePairs => f.write_str("no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "error decoding the global map"; e),
+            DecodeInput(ref e) => write_err!(f, "error decoding an input map"; e),
+            DecodeOutput(ref e) => write_err!(f, "error decoding an output map"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..409cc4c 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => f.write_str("attempted to extract tx from an unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine the lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => None,
+            DetermineLockTime(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From 694f4985bfaa5de3beb2b877cdd0edf53a4fbee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 05/24] fix: do not panic or clear the modifiable flags when no
 signature is added

Signing with a key store that has none of the keys of an input whose sighash
cannot be computed panicked, and an input that was not signed still cleared
the PSBT_GLOBAL_TX_MODIFIABLE flags.
---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index aed0f62..1fe9646 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -810,8 +810,10 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // Only update the modifiable flags if we signed something.
+        if let (false, Some(ty)) = (used.is_empty(), sighash_ty) {
+            self.clear_tx_modifiable(ty as u8);
+        }
 
         Ok(used)
     }
-- 
2.43.0


From 69a395a35daf67691329f318c6976a3e765f2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 06/24] fix: default to the final sequence number in the
 unsigned transaction

The signed transaction used Sequence::MAX when an input has no sequence but the
unsigned one, which is what signers sign, used Sequence::ZERO, so signatures
created by this crate were invalid for the transaction it extracted.
---
 src/v2/map/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index cecde6e..bde58eb 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // BIP-370: If omitted, the sequence number is assumed to be the final sequence number.
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From d689b20e2deb87c1949216a16084d1d68f9ee3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 07/24] fix: keep the sequence, lock times, unknown fields and
 witness when finalizing

Finalizing an input dropped its sequence and required lock times, so the
extracted transaction was not the one that had been signed, dropped the unknown
fields and, for an input with a non-witness UTXO only, dropped the final witness
so that the input was never considered finalized.
---
 src/v2/map/input.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index bde58eb..877326e 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -227,10 +227,12 @@ impl Input {
             final_script_sig: None,
             final_script_witness: None,
 
-            // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
+            // These determine the transaction, they must not change after signing.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
+            // BIP-174: All other data except the UTXO and unknown fields should be cleared.
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -250,22 +252,18 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
         // Is there an infallible way to do this?
-        if self.witness_utxo.is_some() {
-            if final_script_witness.is_empty() {
-                return Err(FinalizeError::EmptyWitness);
-            }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
+        if self.witness_utxo.is_some() && final_script_witness.is_empty() {
+            return Err(FinalizeError::EmptyWitness);
         }
+        // A finalized input has both fields set, for a legacy input the witness is empty.
+        ret.final_script_sig = Some(final_script_sig);
+        ret.final_script_witness = Some(final_script_witness);
 
         Ok(ret)
     }
-- 
2.43.0


From 9fa54c9f495e024966cbb3759b59d1942c1d1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 08/24] fix: report inconsistent xpub key sources when
 combining instead of panicking

The length difference underflowed when the other derivation path was shorter
and not a suffix, and equal paths with different fingerprints, documented to be
an error, were accepted.
---
 src/v0/bitcoin/mod.rs | 5 +++--
 src/v2/map/global.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..8c5770b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation1.len() > derivation2.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..aac520b 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation1.len() > derivation2.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From a19a011972ceb294b1a3329a40312f8625365403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 09/24] fix: do not print the final script sig and witness to
 stdout

---
 src/v2/miniscript/finalize.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..9c0779c 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -126,8 +126,6 @@ impl Finalizer {
         };
 
         let witness = Witness::from_slice(&witness);
-        println!("{:#?}", script_sig);
-        println!("{:#?}", witness);
         Ok((script_sig, witness))
     }
 
-- 
2.43.0


From 9af7073104dd7bb57a3c53cae3ab8b97aeb6c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 10/24] fix: check absolute lock times against the
 transaction's lock time

The interpreter was given the lock time required by the single input, not the
one determined for the whole transaction.
---
 src/v2/map/input.rs      | 13 -------------
 src/v2/miniscript/mod.rs |  3 +--
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 877326e..3c8e143 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -268,19 +268,6 @@ impl Input {
         Ok(ret)
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..a8a1957 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -88,8 +88,7 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
+        let cltv = unsigned_tx.lock_time;
         // TODO: is this usage of MAX correct?
         let csv = input.sequence.unwrap_or(Sequence::MAX);
 
-- 
2.43.0


From 1439c776066328200a5f5c35a7cb7a541ec03905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:48 +0000
Subject: [PATCH 11/24] fix: match an Xpriv set's keys by their own fingerprint

GetKey for a set of Xprivs compared the requested fingerprint to the
parent's, so it derived from the wrong key (or found none) unlike the
implementation for a single Xpriv.
---
 src/v0/bitcoin/mod.rs | 2 +-
 src/v2/mod.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 8c5770b..7ea7f8d 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -811,7 +811,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 1fe9646..017e7a0 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1075,7 +1075,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
-- 
2.43.0


From f5441d8d0286ebad4e66bd111368a5d33e626daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 12/24] fix: return an error if the spent output index is out
 of range

The vout of an input is untrusted data and need not index an output of the
input's non-witness UTXO.
---
 src/v0/bitcoin/mod.rs          | 2 +-
 src/v0/miniscript/finalizer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7ea7f8d..5d26b58 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -623,7 +623,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..4e33e93 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From ee17bbf00f85c007be36fadd0984bc751abef6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 13/24] fix: do not panic extracting a transaction if a UTXO
 index is out of range

fee() returns PsbtUtxoOutOfbounds for it, which was treated as unreachable.
---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 5d26b58..35f205b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,7 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
-- 
2.43.0


From 644e6b94faa8ae13e80ccf9999f7a642e6007f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 14/24] fix: keep the other input's sighash type when combining

The field was the only one dropped if just the other PSBT had it.
---
 src/v0/bitcoin/map/input.rs | 1 +
 src/v2/map/input.rs         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..0a3dcdc 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -323,6 +323,7 @@ impl Input {
         self.proprietary.extend(other.proprietary);
         self.unknown.extend(other.unknown);
 
+        combine!(sighash_type, self, other);
         combine!(redeem_script, self, other);
         combine!(witness_script, self, other);
         combine!(final_script_sig, self, other);
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 3c8e143..e6a2ca7 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -602,7 +602,7 @@ impl Input {
         }
 
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From 4e2d6519d274d2834ffdc3bec66117a519be5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 15/24] fix: keep the other PSBT's fallback lock time when
 combining

It was dropped if just the other PSBT had it.
---
 src/v2/map/global.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index aac520b..f669327 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -444,6 +444,7 @@ impl Global {
             }
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
         #[cfg(feature = "silent-payments")]
         v2_combine_map!(sp_ecdh_shares, self, other);
         #[cfg(feature = "silent-payments")]
-- 
2.43.0


From 96a7a2890110858003f7b21832a2dace2298f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 16/24] fix: refuse to combine PSBTs with different numbers of
 inputs or outputs

The surplus inputs and outputs of the other PSBT were dropped silently.
---
 src/v2/mod.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 017e7a0..e275db0 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -673,6 +673,19 @@ impl Psbt {
     ///
     /// See [`combine()`] for a non-consuming version of this function.
     pub fn combine_with(mut self, other: Self) -> Result<Psbt, CombineError> {
+        if self.inputs.len() != other.inputs.len() {
+            return Err(CombineError::InputCountMismatch {
+                this: self.inputs.len(),
+                that: other.inputs.len(),
+            });
+        }
+        if self.outputs.len() != other.outputs.len() {
+            return Err(CombineError::OutputCountMismatch {
+                this: self.outputs.len(),
+                that: other.outputs.len(),
+            });
+        }
+
         self.global.combine(other.global)?;
 
         for (self_input, other_input) in self.inputs.iter_mut().zip(other.inputs.into_iter()) {
@@ -1325,6 +1338,20 @@ pub enum CombineError {
     Input(input::CombineError),
     /// Error while combining the output maps.
     Output(output::CombineError),
+    /// The number of inputs is not the same.
+    InputCountMismatch {
+        /// Attempted to combine a PSBT with `this` many inputs.
+        this: usize,
+        /// Into a PSBT with `that` many inputs.
+        that: usize,
+    },
+    /// The number of outputs is not the same.
+    OutputCountMismatch {
+        /// Attempted to combine a PSBT with `this` many outputs.
+        this: usize,
+        /// Into a PSBT with `that` many outputs.
+        that: usize,
+    },
 }
 
 impl fmt::Display for CombineError {
@@ -1335,6 +1362,12 @@ impl fmt::Display for CombineError {
             Global(ref e) => write_err!(f, "error while combining the global maps"; e),
             Input(ref e) => write_err!(f, "error while combining the input maps"; e),
             Output(ref e) => write_err!(f, "error while combining the output maps"; e),
+            InputCountMismatch { ref this, ref that } => {
+                write!(f, "combine two PSBTs with different input counts: {} {}", this, that)
+            }
+            OutputCountMismatch { ref this, ref that } => {
+                write!(f, "combine two PSBTs with different output counts: {} {}", this, that)
+            }
         }
     }
 }
@@ -1348,6 +1381,7 @@ impl std::error::Error for CombineError {
             Global(ref e) => Some(e),
             Input(ref e) => Some(e),
             Output(ref e) => Some(e),
+            InputCountMismatch { .. } | OutputCountMismatch { .. } => None,
         }
     }
 }
-- 
2.43.0


From 2f729cdf414332c7e8e8ec574b19fac813ec5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 17/24] fix: check the redeem script against the witness script
 in signer_checks

For P2SH-P2WSH the script pubkey, which is P2SH, was compared to a P2WSH
script, so every such input was refused.
---
 src/v0/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..7d8e0d0 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -95,8 +95,8 @@ impl Psbt {
                             }
                         } else if script_pubkey.is_p2sh() {
                             if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
+                                if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
+                                    != *redeem_script
                                 {
                                     return Err(SignerChecksError::WitnessScriptMismatchShWsh);
                                 }
-- 
2.43.0


From 6651796d77d34b7a330ffd24bc2f96c74e99fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 18/24] fix: refuse a witness UTXO for a legacy P2SH input in
 signer_checks

Spending it needs a non-witness signature, as for a bare output.
---
 src/v0/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 7d8e0d0..3deb784 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -59,7 +59,8 @@ impl Psbt {
         for (i, input) in self.inputs.iter().enumerate() {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
-                    Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    Ok(OutputType::Bare) | Ok(OutputType::Sh) =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
-- 
2.43.0


From 16ea327128f408603b802ec651b9540b7f5a3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 19/24] fix: refuse a non-witness UTXO that is not the
 transaction being spent

BIP-174 requires that its hash matches the hash specified in the prevout.
---
 src/error.rs        | 5 ++++-
 src/v2/map/input.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 277c32d..595c3ea 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -76,6 +76,8 @@ pub enum FundingUtxoError {
     },
     /// No funding utxo found.
     MissingUtxo,
+    /// The non-witness transaction is not the one being spent.
+    TxidMismatch,
 }
 
 impl fmt::Display for FundingUtxoError {
@@ -86,6 +88,7 @@ impl fmt::Display for FundingUtxoError {
             OutOfBounds { vout, len } =>
                 write!(f, "vout {} out of bounds for tx list len: {}", vout, len),
             MissingUtxo => write!(f, "no funding utxo found"),
+            TxidMismatch => write!(f, "non-witness utxo does not have the previous txid"),
         }
     }
 }
@@ -96,7 +99,7 @@ impl std::error::Error for FundingUtxoError {
         use FundingUtxoError::*;
 
         match *self {
-            OutOfBounds { .. } | MissingUtxo => None,
+            OutOfBounds { .. } | MissingUtxo | TxidMismatch => None,
         }
     }
 }
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index e6a2ca7..2400046 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -323,6 +323,9 @@ impl Input {
         if let Some(ref utxo) = self.witness_utxo {
             Ok(utxo)
         } else if let Some(ref tx) = self.non_witness_utxo {
+            if tx.compute_txid() != self.previous_txid {
+                return Err(FundingUtxoError::TxidMismatch);
+            }
             let vout = self.spent_output_index as usize;
             tx.output.get(vout).ok_or(FundingUtxoError::OutOfBounds { vout, len: tx.output.len() })
         } else {
-- 
2.43.0


From 37d5706a5f3be0084ff1437521838ce6b6273366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 20/24] fix: v0 finalizer keeps proprietary and unknown input
 records

---
 src/v0/miniscript/finalizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 4e33e93..ff8aac5 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -445,6 +445,8 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
-- 
2.43.0


From e530306b5851da3fd1a2aec179933f4ca2f7ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 21/24] fix: finalize_inp_mall_mut allows malleable
 satisfactions

---
 src/v0/miniscript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..21c197c 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -680,7 +680,7 @@ impl PsbtExt for Psbt {
         if index >= self.inputs.len() {
             return Err(Error::InputIdxOutofBounds { psbt_inp: self.inputs.len(), index });
         }
-        finalizer::finalize_input(self, index, secp, /*allow_mall*/ false)
+        finalizer::finalize_input(self, index, secp, /*allow_mall*/ true)
     }
 
     fn finalize_inp_mall<C: secp256k1::Verification>(
-- 
2.43.0


From ebf09d98cc63c4664ecc199412c69b8fa121e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 22/24] fix: read hash preimages from serde formats that do not
 lend strings

---
 src/serde_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..7bb5690 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,8 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0


From e804d0a8d1f3c948f715df5b77c5b9cf7b7eb44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 23/24] fix: refuse outputs with neither a script pubkey nor
 silent payment info

---
 src/v2/map/output.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index 4132ce7..0da7b14 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -125,10 +125,10 @@ impl Output {
         }
 
         rv.amount = amount.ok_or(DecodeError::MissingValue)?;
-        // BIP-375 allows outputs to be missing scriptPubkey
-        #[cfg(not(feature = "silent-payments"))]
-        let script_pubkey = Some(script_pubkey.ok_or(DecodeError::MissingScriptPubkey)?);
-        rv.script_pubkey = script_pubkey.unwrap_or_default();
+        // BIP-375 allows outputs that have silent payment info to be missing scriptPubkey
+        #[cfg(feature = "silent-payments")]
+        let script_pubkey = script_pubkey.or(rv.sp_v0_info.as_ref().map(|_| ScriptBuf::new()));
+        rv.script_pubkey = script_pubkey.ok_or(DecodeError::MissingScriptPubkey)?;
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
-- 
2.43.0


From 93a777c53bc2542e4ea9ba0718bfc0b276bbcbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 24/24] fix: refuse uncompressed keys in silent payment records

---
 src/macros.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index 6e5cc88..78ebf1b 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -137,8 +137,15 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        // An uncompressed key must not be taken for its compressed form.
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        if $raw_value.len() != 33 {
+            return Err(InsertPairError::ValueWrongLength($raw_value.len(), 33).into());
+        }
         let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value)
             .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 33))?;
         match $map.entry(scan_key) {
@@ -154,6 +161,10 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        // An uncompressed key must not be taken for its compressed form.
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
         let value = $crate::v2::dleq::DleqProof::try_from($raw_value.as_slice())
-- 
2.43.0

