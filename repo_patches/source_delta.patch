From d328a2ba4be241223d341e47fb7c444ad39bca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:21 +0000
Subject: [PATCH 01/38] fix: make the layer fingerprint depend on the stored
 contents

`Storage::checkpoint` computed the XOR of all changes but then threw it
away, so the root fingerprint just alternated between two constants.
---
 crates/host/state/src/storage.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..e9e2135 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -23,11 +23,9 @@ pub use crate::error::{StorageError, StorageResult as Result};
 
 type Changes = HashMap<State, Vec<u8>>;
 
-// When initializing [`State`]'s on the database, we zero all bits. In
-// memory, however, the initial [`State`] is always filled with 1's (by
-// XOR-ing them together, we still get 0).
+// The [`State`] of an empty collection of key-value pairs. It's the neutral
+// element of XOR.
 const STATE_ZEROS: State = State([0; 32]);
-const STATE_ONES: State = State([std::u8::MAX; 32]);
 
 const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 
@@ -237,12 +235,18 @@ impl Storage {
     }
 
     pub async fn checkpoint(&mut self) -> Result<()> {
-        let mut fingerprint = self.next_layer.changes_xor_fingerprint;
         let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
         for change in dirty_changes {
+            // The fingerprint covers the *current* contents only, so any value
+            // that is being overwritten must not contribute to it anymore.
+            if let Some(old_value) = self.get_by_hash(&change.0, None).await? {
+                let xor = hash_key_value_pair(&change.0, &old_value);
+                xor_fingerprint(&mut self.next_layer.changes_xor_fingerprint, &xor);
+            }
+
             let xor = hash_key_value_pair(&change.0, &change.1);
-            xor_fingerprint(&mut fingerprint, &xor);
+            xor_fingerprint(&mut self.next_layer.changes_xor_fingerprint, &xor);
 
             self.next_layer.changes.insert(change.0, change.1);
         }
@@ -294,7 +298,7 @@ impl Storage {
         .await?;
 
         // Reset layer-specific information to default values.
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -371,7 +375,7 @@ impl Storage {
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
 
         Ok(())
     }
-- 
2.43.0


From a82ee35ca953642e301477190814b26970252579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 02/38] fix: only read values that belong to a complete layer

The JOIN had no condition that ties a value to its own layer, so values
of a half-written layer were visible as soon as any layer was complete.
---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index e9e2135..942fc93 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -177,6 +177,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -198,6 +200,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From fe7afc99791669f3d56ff802c92bbc411f9fd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 03/38] fix: reopen an existing global state database

Opening a non-empty database always failed on the UNIQUE constraint of
the initial layer, and a half-written layer was never removed, which
made the following commit fail.
---
 crates/host/state/src/storage.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 942fc93..7b79685 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -66,23 +66,25 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
-
         storage.delete_bad_layers().await?;
 
+        if let Some(last_layer_id) = storage.last_layer_id().await? {
+            storage.next_layer.id = last_layer_id + 1;
+        } else {
+            storage
+                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                .await?;
+        }
+
         Ok(storage)
     }
 
@@ -112,6 +114,10 @@ impl Storage {
         .await?
         .rows_affected();
 
+        sqlx::query(r#"DELETE FROM "layers" WHERE "complete" = 0"#)
+            .execute(&self.sqlite)
+            .await?;
+
         if count_rows > 0 {
             tracing::warn!(
                 affected_rows = count_rows,
-- 
2.43.0


From 24806be8dd5b50fa8422caea7351bcc9d7e09e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 04/38] fix: keep a single connection to the global state
 database

An in-memory database is private to its connection, so a pool of several
(or expiring) connections loses data.
---
 crates/host/state/src/storage.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 7b79685..7489082 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -59,7 +59,14 @@ impl Storage {
     /// The SQLite database may or may not be an empty database. If it's empty,
     /// then it will be initialized with the appropriate schema.
     pub async fn new(sqlite_uri: &str) -> Result<Self> {
-        let sqlite = sqlx::SqlitePool::connect(sqlite_uri).await?;
+        // A single, long-lived connection: every connection to `:memory:` is a
+        // separate database that is gone as soon as it's closed.
+        let sqlite = sqlx::sqlite::SqlitePoolOptions::new()
+            .max_connections(1)
+            .max_lifetime(None)
+            .idle_timeout(None)
+            .connect(sqlite_uri)
+            .await?;
         Self::new_with_pool(sqlite).await
     }
 
-- 
2.43.0


From f6ccbce2a85ce5a9aa3c7589142827627795311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 05/38] fix: apply the layer query parameter to account
 variables

Variables were always read at their most recent value, in spite of the
parameter being documented as used in all read operations.
---
 crates/host/state/src/account_storage.rs | 2 +-
 crates/host/state/src/global_state.rs    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..4ec1b62 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -133,7 +133,7 @@ impl AccountStorage {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
                 .storage()
-                .get(segment.key.as_bytes(), None)
+                .get(segment.key.as_bytes(), self.gs.layer_query_parameter())
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..81fb730 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -167,6 +167,10 @@ impl GlobalState {
             .expect("Poisoned lock on global state storage")
     }
 
+    pub(crate) fn layer_query_parameter(&self) -> Option<i64> {
+        self.layer_query_parameter.map(|layer| layer.0 as i64)
+    }
+
     pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
     where
         T: Codec,
-- 
2.43.0


From 963d79a0379c0ef14c0c12431b68189d4338f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 06/38] fix: discard the changes of a failed transaction

Storage writes and transfers of a transaction that has failed (or the
account of a failed spawn) were left around as dirty changes, and became
part of the state along with the next successful transaction.
---
 crates/host/runtime/src/runtime/runtime.rs | 27 ++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..d41492a 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -2,6 +2,7 @@ use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
 
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
 use svm_codec::Codec;
@@ -81,8 +82,24 @@ impl Runtime {
     }
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
-        let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
-        result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+        let result = catch_unwind(AssertUnwindSafe(|| {
+            self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out))
+        }));
+
+        // Whatever a failed transaction has written must be thrown away.
+        if !matches!(result, Ok(Ok(_))) {
+            self.tokio_rt.block_on(self.gs.rollback()).unwrap();
+        }
+
+        result
+            .unwrap_or_else(|panic| resume_unwind(panic))
+            .unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+    }
+
+    /// Saves pending changes, so that rolling back the transaction that's about
+    /// to be executed affects nothing else.
+    fn begin_transaction(&mut self) {
+        self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
     }
 
     fn exec<Args, Rets, F, R>(&self, call: &Call, f: F) -> Result<R>
@@ -625,6 +642,8 @@ impl Runtime {
     ) -> SpawnReceipt {
         info!("Runtime `spawn`");
 
+        self.begin_transaction();
+
         let gas_left = GasTank::new(envelope.gas_limit());
         let spawn = SpawnAccount::decode_bytes(message).expect(ERR_VALIDATE_SPAWN);
         let template_addr = spawn.account.template_addr();
@@ -670,6 +689,8 @@ impl Runtime {
         message: &[u8],
         context: &Context,
     ) -> CallReceipt {
+        self.begin_transaction();
+
         let tx = Transaction::decode_bytes(message).expect(ERR_VALIDATE_CALL);
         let gas_left = GasTank::new(envelope.gas_limit());
 
@@ -698,6 +719,8 @@ impl Runtime {
     ///
     /// This function should be called only if the `verify` stage has passed.
     pub fn call(&mut self, envelope: &Envelope, message: &[u8], context: &Context) -> CallReceipt {
+        self.begin_transaction();
+
         let tx = Transaction::decode_bytes(message).expect(ERR_VALIDATE_CALL);
 
         let call = self.build_call(
-- 
2.43.0


From 92d31f669bdf5265bf5fcad4ca6557c3f278a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 07/38] fix: let Runtime::commit persist deployments, accounts
 and transfers

These operations leave dirty changes behind, for which committing always
failed.
---
 crates/host/runtime/src/runtime/runtime.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index d41492a..b3fd492 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -96,9 +96,9 @@ impl Runtime {
             .unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
 
-    /// Saves pending changes, so that rolling back the transaction that's about
-    /// to be executed affects nothing else.
-    fn begin_transaction(&mut self) {
+    /// Saves pending changes, i.e. they are part of the next layer and can't be
+    /// rolled back anymore.
+    fn save_changes(&mut self) {
         self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
     }
 
@@ -642,7 +642,7 @@ impl Runtime {
     ) -> SpawnReceipt {
         info!("Runtime `spawn`");
 
-        self.begin_transaction();
+        self.save_changes();
 
         let gas_left = GasTank::new(envelope.gas_limit());
         let spawn = SpawnAccount::decode_bytes(message).expect(ERR_VALIDATE_SPAWN);
@@ -689,7 +689,7 @@ impl Runtime {
         message: &[u8],
         context: &Context,
     ) -> CallReceipt {
-        self.begin_transaction();
+        self.save_changes();
 
         let tx = Transaction::decode_bytes(message).expect(ERR_VALIDATE_CALL);
         let gas_left = GasTank::new(envelope.gas_limit());
@@ -719,7 +719,7 @@ impl Runtime {
     ///
     /// This function should be called only if the `verify` stage has passed.
     pub fn call(&mut self, envelope: &Envelope, message: &[u8], context: &Context) -> CallReceipt {
-        self.begin_transaction();
+        self.save_changes();
 
         let tx = Transaction::decode_bytes(message).expect(ERR_VALIDATE_CALL);
 
@@ -746,6 +746,8 @@ impl Runtime {
 
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        self.save_changes();
+
         self.tokio_rt
             .block_on(self.gs.commit())
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
-- 
2.43.0


From 1e73f2b214e6db598d3dc51f5311ee761302b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 08/38] fix: don't mint or burn coins in transfers

A transfer from an account to itself minted coins, and one that would
overflow the destination's balance had already debited the source.
---
 crates/host/runtime/src/runtime/runtime.rs  |  7 ++++++-
 crates/host/runtime/src/vmcalls/transfer.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index b3fd492..dcfac48 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -808,11 +808,16 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+        if src_addr == dst_addr {
+            return;
+        }
+        let new_dst_bal = dst_bal.checked_add(amount).unwrap();
+
         self.tokio_rt
             .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(new_dst_bal))
             .unwrap();
     }
 }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..0457ae2 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,12 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    if src_addr != dst_addr {
+        rt.block_on(src_account.set_balance(src_balance - amount))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
+            .unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From ae9038022f2451ecc72e6ff373cb58771462dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 09/38] fix: return the start of a static allocation

The end was returned, so a small allocation overlapped a preceding larger
one and the last one could reach beyond the memory.
---
 crates/host/runtime/src/vmcalls/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/runtime/src/vmcalls/alloc.rs b/crates/host/runtime/src/vmcalls/alloc.rs
index 6f1a01a..9dfe02e 100644
--- a/crates/host/runtime/src/vmcalls/alloc.rs
+++ b/crates/host/runtime/src/vmcalls/alloc.rs
@@ -11,7 +11,8 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     assert!(size > 0);
 
-    let used = used_memory(env);
+    // Offset zero is the null pointer and it's never handed out.
+    let used = used_memory(env).max(1);
     let new_used = used + size as u64;
 
     let allocated = allocated_memory(env);
@@ -22,7 +23,7 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    used as u32
 }
 
 #[allow(unused)]
-- 
2.43.0


From 41b678012fb5a72edf6f0fb9c269fca72bea4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 10/38] fix: reject malformed template sections instead of
 panicking

An unknown gas mode or layout kind, variable ids that overflow and the
unsupported sections brought down the validation of a deploy message.
---
 crates/host/codec/src/section/sections/api.rs    | 3 ++-
 crates/host/codec/src/section/sections/code.rs   | 2 +-
 crates/host/codec/src/section/sections/data.rs   | 6 +++++-
 crates/host/codec/src/section/sections/schema.rs | 3 ++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..8cc2c95 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // It will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..a4cb12e 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..1625381 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -121,6 +121,10 @@ impl Codec for Layout {
                 if var_count > 0 {
                     first_var_id = u32::decode(reader)?;
 
+                    if first_var_id.checked_add(var_count as u32).is_none() {
+                        return Err(ParseError::InvalidSection);
+                    }
+
                     // Decoding each `var`
                     for _ in 0..var_count {
                         let byte_size = decode_var_byte_size(reader)?;
@@ -150,7 +154,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..37d8c8b 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // It will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From b1cc2894e328cd9df49195e2f84fbcc9375f0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 11/38] fix: reject a malformed svm_alloc or svm_verify export
 instead of panicking

The exported function may be an imported one, or not exist at all.
---
 crates/host/program/src/program.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..3853ec9 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -284,13 +284,15 @@ fn export_func_signature<'p>(
     module_types: &'p [pwasm::Type],
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
-        let global = *global as usize;
-        debug_assert!(global >= import_count);
+        let local = (*global as usize)
+            .checked_sub(import_count)
+            .ok_or(ProgramError::InvalidExportKind)?;
 
-        let local = global - import_count;
-        let func = &module_functions[local];
+        let func = module_functions.get(local);
+        let func = func.ok_or(ProgramError::InvalidWasm)?;
         let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
+        let sig = module_types.get(type_ref);
+        let sig = sig.ok_or(ProgramError::InvalidWasm)?;
 
         Ok(sig)
     } else {
-- 
2.43.0


From a58647032876054f05c1db21d484efb0c6a9b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 12/38] fix: disallow the remaining floating-point opcodes

Truncating and reinterpreting a float (e.g. a local) was accepted.
---
 crates/host/program/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..9d8adf9 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -80,6 +80,16 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64Min
         | Instruction::F64Max
         | Instruction::F64Copysign
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64
         | Instruction::F32ConvertSI32
         | Instruction::F32ConvertUI32
         | Instruction::F32ConvertSI64
-- 
2.43.0


From f9437ad86467997d551613ea63a910f9aed4b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 13/38] fix: price functions with dead code

Only blocks without predecessors were pruned but not the ones following
them, for which computing the price panicked.
---
 crates/host/gas/src/graph/weight.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index dd68b1c..610a236 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -54,13 +54,20 @@ fn prune_unreachable_nodes<L>(graph: &WeightedGraph<L>, start: L)
 where
     L: NodeLabel,
 {
-    graph
-        .source_nodes()
-        .iter()
-        .filter(|node| node.label() != start)
-        .for_each(|source| {
-            graph.remove_node(source);
-        });
+    let is_unreachable = |node: &NodeRef<L, NodeWeight<L>>| {
+        node.is_source() && node.label() != start
+    };
+
+    let mut unreachable = graph.source_nodes();
+    unreachable.retain(is_unreachable);
+
+    while let Some(source) = unreachable.pop() {
+        let neighbors = source.outgoing();
+        graph.remove_node(&source);
+
+        // Whatever is reachable only from `source` is unreachable as well.
+        unreachable.extend(neighbors.into_iter().filter(is_unreachable));
+    }
 }
 
 fn construct_path<L>(graph: &WeightedGraph<L>, start: L, end: L) -> WeightedPath<L>
-- 
2.43.0


From 6f57a817a79c5ad31b6f622b6698430ecba52096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 14/38] fix: encode receipts with long error messages

Truncating in the middle of a UTF-8 character panicked, and the messages
of compilation and instantiation errors weren't truncated at all.
---
 crates/host/codec/src/receipt/error.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..9891754 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -112,7 +112,7 @@ impl Codec for RuntimeFailure {
             } => {
                 template.encode(w);
                 target.encode(w);
-                msg.encode(w);
+                encode_msg(msg, w);
             }
             RuntimeError::FuncNotFound {
                 target,
@@ -187,9 +187,9 @@ impl Codec for RuntimeFailure {
 
 fn encode_msg(msg: &str, w: &mut impl WriteExt) {
     if msg.len() > 255 {
-        let bytes = &msg.as_bytes()[0..255];
-        let msg = String::from_utf8(bytes.to_vec()).unwrap();
-        msg.encode(w);
+        let is_boundary = |n: &usize| msg.is_char_boundary(*n);
+        let len = (0..=255).rev().find(is_boundary).unwrap_or(0);
+        msg[..len].to_string().encode(w);
     } else {
         msg.to_string().encode(w);
     }
-- 
2.43.0


From b055507e00624be8dab1876342a7d2df9792bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 15/38] fix: encode the logs of a failed deploy receipt

---
 crates/host/codec/src/receipt/deploy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..26a72ef 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
-- 
2.43.0


From e1c7d89fa4b46ff1a475ecc171188b08ff022582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:58 +0000
Subject: [PATCH 16/38] fix: decode arrays of eight items and size arrays
 correctly

The decoder took the marker byte of an array for its capacity, which is
seven for an array of eight items, and `byte_size` of an array looked at
one item past its end.
---
 crates/wasm/abi-decoder/src/decoder.rs           | 5 +++--
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..101ba1a 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -265,8 +265,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -281,6 +279,9 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From 59901200003b9e11c8e665c5e105c65a2cba31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:10 +0000
Subject: [PATCH 17/38] fix: report JSON encoding errors instead of panicking

---
 crates/host/codec/src/api/json/call.rs      | 10 +++++-----
 crates/host/codec/src/api/json/inputdata.rs |  2 +-
 crates/host/codec/src/api/json/spawn.rs     |  7 +++++--
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index 4fbf9b8..cfc5357 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -43,8 +43,8 @@ pub fn encode_call_raw(json: &str) -> Result<Vec<u8>, JsonError> {
         version: get_field(json, "version")?,
         target: get_field::<AddressWrapper>(json, "target")?.into(),
         func_name: get_field(json, "func_name")?,
-        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode(),
-        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode(),
+        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode()?,
+        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode()?,
     }
     .encode_to_vec())
 }
@@ -92,10 +92,10 @@ pub(crate) enum EncodedOrDecodedCalldata {
 }
 
 impl EncodedOrDecodedCalldata {
-    pub fn encode(self) -> Vec<u8> {
+    pub fn encode(self) -> Result<Vec<u8>, JsonError> {
         match self {
-            Self::Encoded(encoded) => encoded.0,
-            Self::Decoded(decoded) => decoded.encode().unwrap(),
+            Self::Encoded(encoded) => Ok(encoded.0),
+            Self::Decoded(decoded) => decoded.encode(),
         }
     }
 }
diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index d7fca6a..8efb241 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -24,7 +24,7 @@ use crate::api::json::JsonError;
 /// ```
 pub fn encode_inputdata(json: &str) -> Result<Json, JsonError> {
     let decoded = DecodedInputData::new(json)?;
-    let calldata = HexBlob(decoded.encode().unwrap());
+    let calldata = HexBlob(decoded.encode()?);
     Ok(json!({ "data": calldata }))
 }
 
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index db0582b..f355db7 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -25,7 +25,7 @@ pub fn encode_spawn(json: &str) -> Result<Vec<u8>, JsonError> {
     let template_addr = get_field::<TemplateAddrWrapper>(json, "template")?.into();
     let name = get_field(json, "name")?;
     let ctor_name = get_field(json, "ctor_name")?;
-    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode();
+    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode()?;
 
     Ok(SpawnAccount {
         version,
@@ -42,7 +42,10 @@ pub fn decode_spawn(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    let spawn = SpawnAccount::decode_bytes(encoded_data).unwrap();
+    let spawn =
+        SpawnAccount::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+            path: "data".to_string(),
+        })?;
     let decoded_calldata = decode_raw_input(&spawn.calldata).unwrap();
 
     Ok(json!({
-- 
2.43.0


From 439060fc9b2520563348dca7e99886ecd248f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:16 +0000
Subject: [PATCH 18/38] fix: decode calls whose calldata holds an empty array

---
 crates/host/codec/src/api/json/call.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index cfc5357..644e55c 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -65,13 +65,8 @@ pub fn decode_call(json: &str) -> Result<Json, JsonError> {
         path: json.to_string(),
     })?;
 
-    let verifydata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.verifydata()).unwrap().to_string()).unwrap(),
-    );
-
-    let calldata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.calldata()).unwrap().to_string()).unwrap(),
-    );
+    let verifydata = decode_raw_input(tx.verifydata())?;
+    let calldata = decode_raw_input(tx.calldata())?;
 
     Ok(json!({
         "version": tx.version,
-- 
2.43.0


From f3f978e1cbd4786e7f9e948b1433ba503d4b7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:34 +0000
Subject: [PATCH 19/38] fix: encode the touched accounts of a receipt in a
 fixed order

---
 crates/host/codec/src/receipt/touched_accounts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..fcb747f 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,8 +10,12 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
-            w.write_bytes(addr.as_slice());
+        // The iteration order of a `HashSet` isn't deterministic.
+        let mut addresses: Vec<&[u8]> = self.iter().map(|addr| addr.as_slice()).collect();
+        addresses.sort_unstable();
+
+        for addr in addresses {
+            w.write_bytes(addr);
         }
     }
 
-- 
2.43.0


From f85f10b80d02c5ff28f71e144afb92c47829556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:34 +0000
Subject: [PATCH 20/38] fix: a constructor that isn't exported fails the spawn
 instead of panicking

---
 crates/host/runtime/src/runtime/runtime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index dcfac48..2962823 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -453,7 +453,11 @@ impl Runtime {
 
         match gas_mode {
             GasMode::Fixed => {
-                let func_index = program.exports().get(func_name).unwrap();
+                let func_index = match program.exports().get(func_name) {
+                    Some(func_index) => func_index,
+                    // Executing it will fail.
+                    None => return gas_left,
+                };
                 let func_price = self.template_price.price_of(&template_addr, &program);
 
                 let price = func_price.get(func_index) as u64;
-- 
2.43.0


From dc42823f450b785cdea0c7292f52cf3fc168fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:00 +0000
Subject: [PATCH 21/38] fix: unknown templates and accounts yield failure
 receipts

---
 crates/host/runtime/src/runtime/runtime.rs | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 2962823..eb106ba 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -333,13 +333,10 @@ impl Runtime {
         &self,
         account_addr: &Address,
     ) -> std::result::Result<Template, RuntimeFailure> {
-        // TODO:
-        //
-        // * Return a `RuntimeFailure` when `account_addr` doesn't exist.
         let account = self
             .tokio_rt
             .block_on(AccountStorage::load(self.gs.clone(), account_addr))
-            .unwrap();
+            .map_err(|_| RuntimeError::AccountNotFound(account_addr.clone()))?;
         let template_addr = self.tokio_rt.block_on(account.template_addr()).unwrap();
         self.load_template(&template_addr)
     }
@@ -349,12 +346,14 @@ impl Runtime {
         template_addr: &TemplateAddr,
     ) -> std::result::Result<Template, RuntimeFailure> {
         let template_storage = TemplateStorage::load(self.gs.clone(), &template_addr).unwrap();
-        let sections = self.tokio_rt.block_on(template_storage.sections()).unwrap();
+        let sections = self
+            .tokio_rt
+            .block_on(template_storage.sections())
+            .map_err(|_| RuntimeError::TemplateNotFound(template_addr.clone()))?;
         let template = Template::from_sections(sections);
 
         // TODO:
         //
-        // * Return a `RuntimeFailure` when `Template` doesn't exist.
         // * Fetch only the `Core Sections`.
         // * Add `non_core` sections to be fetched as a param (optional)
         Ok(template)
@@ -476,19 +475,19 @@ impl Runtime {
         func_name: &'a str,
         func_input: &'a [u8],
         gas_left: GasTank,
-    ) -> Call<'a> {
+    ) -> Result<Call<'a>> {
         let target = tx.target();
         let account_storage = self
             .tokio_rt
             .block_on(AccountStorage::load(self.gs.clone(), target))
-            .unwrap();
+            .map_err(|_| RuntimeError::AccountNotFound(target.clone()))?;
 
         let template = self
             .tokio_rt
             .block_on(account_storage.template_addr())
             .unwrap();
 
-        Call {
+        Ok(Call {
             func_name,
             func_input,
             target: target.clone(),
@@ -499,7 +498,7 @@ impl Runtime {
             within_spawn: false,
             envelope,
             context,
-        }
+        })
     }
 
     /// Returns the [`State`] root hash and [`Layer`] of the last layer.
@@ -716,7 +715,10 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), ()>(&call)
+        match call {
+            Ok(call) => self.exec_call::<(), ()>(&call),
+            Err(fail) => CallReceipt::from_err(fail.err, fail.logs),
+        }
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
@@ -737,7 +739,10 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
-        self.exec_call::<(), ()>(&call)
+        match call {
+            Ok(call) => self.exec_call::<(), ()>(&call),
+            Err(fail) => CallReceipt::from_err(fail.err, fail.logs),
+        }
     }
 
     /// Moves the internal state of this [`Runtime`] back to the time of
-- 
2.43.0


From e24db80ff5b579e0721958a0bc046cb1d7d6a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 22/38] fix: the pricing of call graphs with a path into a
 cycle reports the cycle instead of panicking

---
 crates/host/gas/src/graph/sort.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/host/gas/src/graph/sort.rs b/crates/host/gas/src/graph/sort.rs
index 57e6d30..fdcf966 100644
--- a/crates/host/gas/src/graph/sort.rs
+++ b/crates/host/gas/src/graph/sort.rs
@@ -96,16 +96,14 @@ where
         .collect::<Vec<_>>();
 
     // We order so that the tests will be deterministic.
-    // So we always pick the first node out of the sorted `candidates`
+    // So we always pick the first node out of the sorted `candidates` which leads to a cycle.
+    // (a node that is only reachable from a cycle has both kinds of edges, but might lead to none).
     candidates.sort_by_key(|node| node.label());
 
-    let start = candidates.first().unwrap();
-    let cycle = find_cycle(&start);
-
-    Some(cycle)
+    candidates.iter().find_map(|start| find_cycle(start))
 }
 
-fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Vec<L>
+fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Option<Vec<L>>
 where
     L: NodeLabel,
     D: NodeData,
@@ -113,11 +111,15 @@ where
     let mut cycle = Vec::new();
     let mut visited = HashSet::new();
 
-    let found = recur_find_cycle(start, &mut cycle, &mut visited);
+    if !recur_find_cycle(start, &mut cycle, &mut visited) {
+        return None;
+    }
 
-    debug_assert!(found);
+    // The path might have led from `start` to a cycle that `start` isn't a part of.
+    let last = *cycle.last()?;
+    let first = cycle.iter().position(|label| *label == last)?;
 
-    cycle
+    Some(cycle.split_off(first))
 }
 
 fn recur_find_cycle<L, D>(
-- 
2.43.0


From b41e5f95a69596ce1a3b24c0c4a63dba905cec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 23/38] fix: malformed receipts are decoding errors instead of
 panics

---
 crates/host/codec/src/receipt/call.rs   |   8 +-
 crates/host/codec/src/receipt/deploy.rs |   8 +-
 crates/host/codec/src/receipt/error.rs  | 122 ++++++++++++------------
 crates/host/codec/src/receipt/mod.rs    |   2 +-
 crates/host/codec/src/receipt/spawn.rs  |  10 +-
 5 files changed, 81 insertions(+), 69 deletions(-)

diff --git a/crates/host/codec/src/receipt/call.rs b/crates/host/codec/src/receipt/call.rs
index 1582bea..847f8f6 100644
--- a/crates/host/codec/src/receipt/call.rs
+++ b/crates/host/codec/src/receipt/call.rs
@@ -60,10 +60,14 @@ impl Codec for CallReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, crate::receipt::TY_CALL);
+        if ty != super::TY_CALL {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 26a72ef..88f1b6a 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -40,10 +40,14 @@ impl Codec for DeployReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_DEPLOY);
+        if ty != TY_DEPLOY {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(version, 0);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index 9891754..e9e2ae6 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,22 +162,22 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
                 0 => oog(cursor),
-                1 => template_not_found(cursor),
-                2 => account_not_found(cursor),
-                3 => compilation_error(cursor),
-                4 => instantiation_error(cursor),
-                5 => func_not_found(cursor),
-                6 => func_failed(cursor),
-                7 => func_not_ctor(cursor),
-                8 => func_not_allowed(cursor),
-                9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
+                1 => template_not_found(cursor)?,
+                2 => account_not_found(cursor)?,
+                3 => compilation_error(cursor)?,
+                4 => instantiation_error(cursor)?,
+                5 => func_not_found(cursor)?,
+                6 => func_failed(cursor)?,
+                7 => func_not_ctor(cursor)?,
+                8 => func_not_allowed(cursor)?,
+                9 => func_invalid_sig(cursor)?,
+                _ => return Err(ParseError::BadByte(ty)),
             }
         };
 
@@ -216,100 +216,100 @@ fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
     RuntimeError::OOG
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..f7402a4 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..0b92ea7 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -61,10 +61,14 @@ impl Codec for SpawnReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_SPAWN);
+        if ty != TY_SPAWN {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
@@ -88,7 +92,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
-- 
2.43.0


From ea7f51c7c128748f3dbb3a3b27e5a879dde892b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 24/38] fix: accept the largest number of ctors and layouts
 that the section formats can hold

---
 crates/host/codec/src/section/sections/ctors.rs | 2 +-
 crates/host/codec/src/section/sections/data.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/section/sections/ctors.rs b/crates/host/codec/src/section/sections/ctors.rs
index 3199822..d9caced 100644
--- a/crates/host/codec/src/section/sections/ctors.rs
+++ b/crates/host/codec/src/section/sections/ctors.rs
@@ -21,7 +21,7 @@ impl Codec for CtorsSection {
         // `#Ctors`
         let count = self.ctors().len();
 
-        assert!(count < std::u8::MAX as usize);
+        assert!(count <= std::u8::MAX as usize);
 
         w.write_byte(count as u8);
 
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1625381..ee56181 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -91,7 +91,7 @@ impl Codec for Layout {
 
                 // `#Vars`
                 let var_count = layout.len();
-                assert!(var_count < std::u16::MAX as usize);
+                assert!(var_count <= std::u16::MAX as usize);
                 (var_count as u16).encode(w);
 
                 if var_count > 0 {
-- 
2.43.0


From 75912e22bd00c05f20c4973c840d38e6f87417b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 25/38] fix: reading bytes does not allocate the declared
 length before having seen them

---
 crates/host/codec/src/ext.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/host/codec/src/ext.rs b/crates/host/codec/src/ext.rs
index a596f1e..f337d14 100644
--- a/crates/host/codec/src/ext.rs
+++ b/crates/host/codec/src/ext.rs
@@ -24,9 +24,8 @@ pub trait ReadExt: Sized {
 
     /// Reads `length` bytes
     fn read_bytes(&mut self, length: usize) -> Result<Vec<u8>, ParseError> {
-        let mut buf = vec![0; length];
-        self.read_fill(&mut buf[..])?;
-        Ok(buf)
+        // `length` is part of the input, there might be far fewer bytes to read.
+        (0..length).map(|_| self.read_byte()).collect()
     }
 }
 
-- 
2.43.0


From 6cada55d7a64f5005d83adbad0b2ee421d49f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 26/38] fix: unknown and nested array markers are ABI decoding
 errors instead of panics

---
 crates/wasm/abi-decoder/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 101ba1a..1db1f65 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -101,7 +101,7 @@ impl Decoder {
             TypeKind::U32 => self.decode_u32(cursor)?.into(),
             TypeKind::I64 => self.decode_i64(cursor)?.into(),
             TypeKind::U64 => self.decode_u64(cursor)?.into(),
-            _ => svm_sdk_std::panic(),
+            TypeKind::Array => return self.invalid_kind(cursor),
         };
 
         Result::Ok(value)
@@ -336,6 +336,13 @@ impl Decoder {
             .ok_or(DecodeError::Value(ValueError::NotEnoughBytes))
     }
 
+    #[inline]
+    fn invalid_kind(&self, cursor: &mut Cursor) -> Result<Value, DecodeError> {
+        let byte = self.peek(cursor)?;
+
+        Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte)))
+    }
+
     #[inline]
     fn peek_kind(&self, cursor: &mut Cursor) -> Result<TypeKind, DecodeError> {
         let byte = self.peek(cursor)?;
@@ -394,7 +401,7 @@ impl Decoder {
             | layout::ARR_9
             | layout::ARR_10 => TypeKind::Array,
 
-            _ => svm_sdk_std::panic(),
+            _ => return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte))),
         };
 
         Result::Ok(kind)
-- 
2.43.0


From d59f85f5f0fab70ef96db121eb8ef1396ead7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 27/38] fix: receipts as JSON: malformed ones are errors, gas
 is not shown negative, logs need not be UTF-8

---
 crates/host/codec/src/api/json/mod.rs     | 8 ++++----
 crates/host/codec/src/api/json/receipt.rs | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 842fab5..2539fdc 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -18,18 +18,18 @@ use serde_json::{json, Value as Json};
 
 use svm_types::{Gas, ReceiptLog};
 
-fn gas_to_json(gas: &Gas) -> i64 {
+fn gas_to_json(gas: &Gas) -> Json {
     if gas.is_some() {
-        gas.unwrap() as _
+        json!(gas.unwrap())
     } else {
-        -1
+        json!(-1)
     }
 }
 
 fn logs_to_json(logs: &[ReceiptLog]) -> Vec<Json> {
     logs.iter()
         .map(|log| {
-            let data = std::str::from_utf8(log.as_bytes()).expect("Invalid UTF-8");
+            let data = String::from_utf8_lossy(log.as_bytes());
 
             json!({
                 "data": data,
diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index 720968b..dd38d27 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -13,9 +13,9 @@ pub fn decode_receipt(json: &str) -> Result<Value, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    assert!(encoded_data.len() > 0);
-
-    let receipt = Receipt::decode_bytes(encoded_data).unwrap();
+    let receipt = Receipt::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+        path: "data".to_string(),
+    })?;
     let ty = receipt_type(&receipt);
 
     let json = if receipt.success() {
-- 
2.43.0


From c9c59c947c2fcecdccae748db8fd8d19dc92c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 28/38] fix: JSON input data which cannot be encoded or decoded
 is an error instead of a panic

---
 crates/host/codec/src/api/json/call.rs      | 17 ++--
 crates/host/codec/src/api/json/inputdata.rs | 95 +++++++++++++--------
 crates/host/codec/src/api/json/mod.rs       | 11 +++
 crates/host/codec/src/api/json/spawn.rs     | 12 ++-
 4 files changed, 91 insertions(+), 44 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index 644e55c..81bc571 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -5,7 +5,7 @@ use svm_types::Transaction;
 
 use super::inputdata::{decode_raw_input, DecodedInputData};
 use super::serde_types::*;
-use super::{get_field, parse_json, JsonError};
+use super::{ensure_encodable, get_field, parse_json, JsonError};
 use crate::Codec;
 
 /// Transforms a user-friendly `call` into an encoded form:
@@ -39,14 +39,19 @@ pub fn encode_call(json: &str) -> Result<Json, JsonError> {
 pub fn encode_call_raw(json: &str) -> Result<Vec<u8>, JsonError> {
     let json = &mut parse_json(json)?;
 
-    Ok(Transaction {
+    let tx = Transaction {
         version: get_field(json, "version")?,
         target: get_field::<AddressWrapper>(json, "target")?.into(),
         func_name: get_field(json, "func_name")?,
         verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode()?,
         calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode()?,
-    }
-    .encode_to_vec())
+    };
+
+    ensure_encodable(tx.func_name.as_bytes(), "func_name")?;
+    ensure_encodable(&tx.verifydata, "verifydata")?;
+    ensure_encodable(&tx.calldata, "calldata")?;
+
+    Ok(tx.encode_to_vec())
 }
 
 /// Given a binary [`Transaction`] wrapped inside JSON,
@@ -65,8 +70,8 @@ pub fn decode_call(json: &str) -> Result<Json, JsonError> {
         path: json.to_string(),
     })?;
 
-    let verifydata = decode_raw_input(tx.verifydata())?;
-    let calldata = decode_raw_input(tx.calldata())?;
+    let verifydata = decode_raw_input(tx.verifydata(), "verifydata")?;
+    let calldata = decode_raw_input(tx.calldata(), "calldata")?;
 
     Ok(json!({
         "version": tx.version,
diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index 8efb241..73255b7 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -4,7 +4,7 @@ use serde_json::Value as Json;
 
 use std::convert::TryFrom;
 
-use svm_abi_decoder::CallData;
+use svm_abi_decoder::{Cursor, Decoder};
 use svm_abi_encoder::{ByteSize, Encoder};
 use svm_sdk_types::value::{Composite, Primitive, Value as SdkValue};
 use svm_sdk_types::{Address, Amount};
@@ -14,6 +14,9 @@ use super::parse_json;
 use super::serde_types::{AddressWrapper, HexBlob};
 use crate::api::json::JsonError;
 
+/// The maximum number of elements of an encoded array.
+const ARRAY_MAX_LEN: usize = 10;
+
 /// Given an `Input Data` JSON, encodes it into a binary `Input Data`
 /// and returns the result wrapped with a JSON.
 ///
@@ -28,9 +31,10 @@ pub fn encode_inputdata(json: &str) -> Result<Json, JsonError> {
     Ok(json!({ "data": calldata }))
 }
 
-pub fn decode_raw_input(data: &[u8]) -> Result<Json, JsonError> {
-    let calldata = CallData::new(data);
-    Ok(calldata_to_json(calldata))
+pub fn decode_raw_input(data: &[u8], path: &str) -> Result<Json, JsonError> {
+    calldata_to_json(data).ok_or(JsonError::InvalidField {
+        path: path.to_string(),
+    })
 }
 
 /// Given a binary `Calldata` (wrapped within a JSON), decodes it into a JSON
@@ -38,7 +42,7 @@ pub fn decode_inputdata(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    Ok(calldata_to_json(CallData::new(&encoded_data)))
+    decode_raw_input(&encoded_data, "data")
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -54,13 +58,7 @@ impl DecodedInputData {
         let abi = get_field::<Vec<TySig>>(json, "abi")?;
         let data = get_field::<Vec<Json>>(json, "data")?;
 
-        if abi.len() != data.len() {
-            Err(JsonError::InvalidField {
-                path: "data".to_string(),
-            })
-        } else {
-            Ok(Self { abi, data })
-        }
+        Ok(Self { abi, data })
     }
 
     /// Like `Self::zip`, but in borrowed form.
@@ -79,6 +77,12 @@ impl DecodedInputData {
     }
 
     pub fn encode(self) -> Result<Vec<u8>, JsonError> {
+        if self.abi.len() != self.data.len() {
+            return Err(JsonError::InvalidField {
+                path: "data".to_string(),
+            });
+        }
+
         let cap = self.cap()?;
         let mut buf = svm_sdk_std::Vec::with_capacity(cap);
 
@@ -89,16 +93,24 @@ impl DecodedInputData {
     }
 }
 
-pub(crate) fn calldata_to_json(mut calldata: CallData) -> Json {
+/// Returns `None` when `bytes` isn't a sequence of values which can be
+/// represented as JSON.
+fn calldata_to_json(bytes: &[u8]) -> Option<Json> {
+    let mut cursor = Cursor::new(bytes);
+    let decoder = Decoder::new();
     let mut abi = vec![];
     let mut data = vec![];
 
-    while let Some(value) = calldata.next().into() {
-        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value));
-        data.push(sdk_value_utils::sdk_value_to_json(value));
+    while !cursor.is_eof() {
+        let value = match decoder.decode_value(&mut cursor) {
+            svm_sdk_std::Result::Ok(value) => value,
+            svm_sdk_std::Result::Err(..) => return None,
+        };
+        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value)?);
+        data.push(sdk_value_utils::sdk_value_to_json(value)?);
     }
 
-    json!({ "abi": abi, "data": data })
+    Some(json!({ "abi": abi, "data": data }))
 }
 
 mod sdk_value_utils {
@@ -110,8 +122,8 @@ mod sdk_value_utils {
     /// JSON value. This function, together with [`ty_sig_of_sdk_value`], can
     /// give a **ful** overview over some values, with both its type signature
     /// and its value.
-    pub fn sdk_value_to_json(value: SdkValue) -> Json {
-        match value {
+    pub fn sdk_value_to_json(value: SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(x) => json!(x),
                 Primitive::I8(x) => json!(x),
@@ -124,21 +136,23 @@ mod sdk_value_utils {
                 Primitive::U64(x) => json!(x),
                 Primitive::Amount(x) => json!(x.0),
                 Primitive::Address(x) => json!(AddressWrapper(Address::new(x.as_slice()))),
-                _ => unreachable!(),
+                // There is no JSON representation for `None` and `Unit`.
+                _ => return None,
             },
             SdkValue::Composite(Composite::Vec(values)) => Json::Array(
                 values
                     .into_iter()
                     .map(|sdk_value| sdk_value_to_json(sdk_value))
-                    .collect(),
+                    .collect::<Option<_>>()?,
             ),
-        }
+        };
+        Some(json)
     }
 
     /// Given a [`svm_sdk_types::value::Value`], encodes its type signature as a
     /// JSON value.
-    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Json {
-        match value {
+    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(_) => "bool",
                 Primitive::I8(_) => "i8",
@@ -151,7 +165,7 @@ mod sdk_value_utils {
                 Primitive::U64(_) => "u64",
                 Primitive::Amount(_) => "amount",
                 Primitive::Address(_) => "address",
-                _ => unreachable!(),
+                _ => return None,
             }
             .into(),
             SdkValue::Composite(Composite::Vec(values)) => {
@@ -159,10 +173,11 @@ mod sdk_value_utils {
                     Json::Null
                 } else {
                     let ty = &values.last().unwrap();
-                    Json::Array(vec![ty_sig_of_sdk_value(ty)])
+                    Json::Array(vec![ty_sig_of_sdk_value(ty)?])
                 }
             }
-        }
+        };
+        Some(json)
     }
 
     pub fn sdk_value_from_json(json: Json, ty_sig: TySigPrim) -> Option<SdkValue> {
@@ -211,9 +226,7 @@ impl TySig {
     fn value_byte_size(&self, value: &Json) -> Result<usize, JsonError> {
         let byte_size = match self {
             TySig::Array(types) => {
-                assert_eq!(types.len(), 1);
-
-                let ty = &types[0];
+                let ty = array_elem_type(types)?;
 
                 // we initialize `byte_size` for the `length` marker.
                 let mut byte_size = 1;
@@ -289,17 +302,31 @@ fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
     }
 }
 
-fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
-    assert_eq!(types.len(), 1);
+/// Arrays hold at most [`ARRAY_MAX_LEN`] elements of the same primitive type.
+fn array_elem_type(types: &[TySig]) -> Result<&TySig, JsonError> {
+    match types {
+        [ty @ TySig::Prim(_)] => Ok(ty),
+        _ => Err(JsonError::InvalidField {
+            path: "abi".to_string(),
+        }),
+    }
+}
 
-    let ty = &types[0];
+fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
+    let ty = array_elem_type(types)?;
 
     let mut value = value.take();
     let elems = value.as_array_mut().ok_or(JsonError::InvalidField {
         path: "calldata".to_string(),
     })?;
 
-    let mut vec = svm_sdk_std::Vec::with_capacity(10);
+    if elems.len() > ARRAY_MAX_LEN {
+        return Err(JsonError::InvalidField {
+            path: "calldata".to_string(),
+        });
+    }
+
+    let mut vec = svm_sdk_std::Vec::with_capacity(ARRAY_MAX_LEN);
 
     for elem in elems.iter_mut() {
         let elem = encode_value(ty.clone(), elem.take())?;
diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 2539fdc..1b3d1a8 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -54,6 +54,17 @@ where
     })
 }
 
+/// The binary format stores the length of strings and of input data as a
+/// single byte.
+fn ensure_encodable(bytes: &[u8], name: &str) -> Result<(), JsonError> {
+    if bytes.len() > std::u8::MAX as usize {
+        return Err(JsonError::InvalidField {
+            path: name.to_string(),
+        });
+    }
+    Ok(())
+}
+
 fn parse_json(json_str: &str) -> Result<Json, JsonError> {
     let json_deserializer = &mut serde_json::Deserializer::from_str(json_str);
     let value = serde_path_to_error::deserialize(json_deserializer)?;
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index f355db7..8a2584a 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -5,7 +5,7 @@ use svm_types::{Account, SpawnAccount};
 use super::call::EncodedOrDecodedCalldata;
 use super::inputdata::decode_raw_input;
 use super::serde_types::{HexBlob, TemplateAddrWrapper};
-use super::{get_field, parse_json, JsonError};
+use super::{ensure_encodable, get_field, parse_json, JsonError};
 use crate::Codec;
 
 ///
@@ -23,10 +23,14 @@ pub fn encode_spawn(json: &str) -> Result<Vec<u8>, JsonError> {
 
     let version = get_field(json, "version")?;
     let template_addr = get_field::<TemplateAddrWrapper>(json, "template")?.into();
-    let name = get_field(json, "name")?;
-    let ctor_name = get_field(json, "ctor_name")?;
+    let name: String = get_field(json, "name")?;
+    let ctor_name: String = get_field(json, "ctor_name")?;
     let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode()?;
 
+    ensure_encodable(name.as_bytes(), "name")?;
+    ensure_encodable(ctor_name.as_bytes(), "ctor_name")?;
+    ensure_encodable(&calldata, "calldata")?;
+
     Ok(SpawnAccount {
         version,
         ctor_name,
@@ -46,7 +50,7 @@ pub fn decode_spawn(json: &str) -> Result<Json, JsonError> {
         SpawnAccount::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
             path: "data".to_string(),
         })?;
-    let decoded_calldata = decode_raw_input(&spawn.calldata).unwrap();
+    let decoded_calldata = decode_raw_input(&spawn.calldata, "calldata")?;
 
     Ok(json!({
         "version": spawn.version,
-- 
2.43.0


From 498321a7fe3522b44d12bfe68db65c5cda122634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 29/38] fix: a Wasm codec buffer which is not UTF-8 is an error
 instead of a panic

---
 crates/host/codec/src/api/wasm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/api/wasm/mod.rs b/crates/host/codec/src/api/wasm/mod.rs
index 4e3c8b2..5943584 100644
--- a/crates/host/codec/src/api/wasm/mod.rs
+++ b/crates/host/codec/src/api/wasm/mod.rs
@@ -175,8 +175,9 @@ where
     F: Fn(&str) -> Result<Vec<u8>, JsonError>,
 {
     let buf = Buffer::from_ptr(ptr);
-    let json_s = std::str::from_utf8(buf.as_ref()).expect("Invalid UTF-8");
-    let result = f(json_s);
+    let result = std::str::from_utf8(buf.as_ref())
+        .map_err(JsonError::from)
+        .and_then(f);
 
     result
         .map(|bytes| Buffer::alloc_ok(&bytes))
-- 
2.43.0


From a591e70e4dcb1f20a75a5112d35ee525c507c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 30/38] fix: a panic within the global state does not poison it
 forever

---
 crates/host/state/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 81fb730..b1b0ab0 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 use svm_codec::Codec;
 use svm_genesis_config::GenesisConfig;
@@ -164,7 +164,9 @@ impl GlobalState {
     pub(crate) fn storage(&self) -> MutexGuard<Storage> {
         self.storage
             .lock()
-            .expect("Poisoned lock on global state storage")
+            // A panic while the lock was held (e.g. due to an invalid layer)
+            // must not make the storage unusable forever.
+            .unwrap_or_else(PoisonError::into_inner)
     }
 
     pub(crate) fn layer_query_parameter(&self) -> Option<i64> {
-- 
2.43.0


From 6cacbebf9dc8d39411dc5835fd3ac27329ec7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 31/38] fix: an executed instance is freed

---
 crates/host/runtime/src/func_env.rs        | 12 +++++++++++-
 crates/host/runtime/src/runtime/runtime.rs |  9 +++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 4a7fb0b..920914a 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -4,7 +4,7 @@ use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::Memory;
 
 use std::collections::HashSet;
-use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::{Arc, PoisonError, RwLock, RwLockReadGuard, RwLockWriteGuard};
 
 use svm_state::AccountStorage;
 use svm_types::{Address, Context, Envelope, ReceiptLog, TemplateAddr};
@@ -91,6 +91,16 @@ impl FuncEnv {
             .expect("Attempted write but RwLock is poisoned")
     }
 
+    /// Gives up the instance's memory.
+    ///
+    /// The instance owns its host functions, these own a [`FuncEnv`] each, and
+    /// the memory owns the instance. Unless that cycle is broken none of them is
+    /// ever freed.
+    pub(crate) fn release_memory(&self) {
+        let mut inner = self.inner.write().unwrap_or_else(PoisonError::into_inner);
+        inner.memory = None;
+    }
+
     /// Sets the [`AccessMode`] and overrides the existing value.
     pub fn set_access_mode(&self, mode: AccessMode) {
         let mut borrow = self.borrow_mut();
diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index eb106ba..519637a 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -127,8 +127,13 @@ impl Runtime {
         let store = crate::wasm_store::new_store();
         let import_object = self.create_import_object(&store, &mut env);
 
-        let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
-        res.map(|rets| f(&env, rets))
+        let res = catch_unwind(AssertUnwindSafe(|| {
+            let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
+            res.map(|rets| f(&env, rets))
+        }));
+        env.release_memory();
+
+        res.unwrap_or_else(|panic| resume_unwind(panic))
     }
 
     fn run<Args, Rets>(
-- 
2.43.0


From 0df2b108d33513da94a5eb26d4cdb9b9680bcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 32/38] fix: a failed svm_runtime_create does not make the
 library unusable, svm_get_account never unwinds into the caller

---
 crates/host/runtime-ffi/src/c_api.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..c339923 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -65,11 +65,10 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock must not be held any further: a panic would poison it.
+        if !*INITIALIZED.lock().unwrap() {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
@@ -115,11 +114,13 @@ pub unsafe extern "C" fn svm_runtime_create(
 #[must_use]
 #[no_mangle]
 pub extern "C" fn svm_runtime_destroy(runtime: *mut c_void) -> svm_result_t {
-    if RUNTIME_TRACKER.free(runtime).is_some() {
-        svm_result_t::OK
-    } else {
-        svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
-    }
+    catch_unwind_or_fail(|| {
+        if RUNTIME_TRACKER.free(runtime).is_some() {
+            svm_result_t::OK
+        } else {
+            svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
+        }
+    })
 }
 
 /// Returns the number of currently allocated runtimes.
@@ -530,8 +531,8 @@ pub unsafe extern "C" fn svm_get_account(
     account_addr: *const u8,
     account: *mut svm_account,
 ) -> svm_result_t {
-    assert!(!account.is_null());
     catch_unwind_or_fail(|| {
+        assert!(!account.is_null());
         let runtime = get_runtime(runtime_ptr);
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
         let account_data = runtime.get_account(&account_addr).unwrap();
-- 
2.43.0


From 0f9b064aa334cc290da430337d4e82af6b8065ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 33/38] fix: svm_runtime_destroy frees the runtime

---
 crates/host/runtime-ffi/src/resource_tracker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 2c325c427907ebf4c578391f01e5c6bf4185a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 34/38] fix: unwrapping or cloning an svm_result_t does not
 free its memory twice

---
 crates/host/runtime-ffi/src/result.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..dd9c58c 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -23,7 +23,7 @@ use std::ops::FromResidual;
 /// free(result->error);
 /// ```
 #[allow(non_camel_case_types)]
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, PartialEq, Eq)]
 #[repr(C)]
 pub struct svm_result_t {
     receipt: *mut u8,
@@ -69,9 +69,8 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+            // `self` still owns the receipt's memory, and frees it when dropped.
+            self.receipt().map(|receipt| receipt.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -122,6 +121,21 @@ impl svm_result_t {
     }
 }
 
+impl Clone for svm_result_t {
+    fn clone(&self) -> Self {
+        // Every instance frees its own memory when dropped.
+        let data = |ptr| unsafe { std::slice::from_raw_parts(ptr, self.buf_size as usize) };
+
+        if !self.error.is_null() {
+            Self::new_error(data(self.error))
+        } else if !self.receipt.is_null() {
+            Self::new_receipt(data(self.receipt))
+        } else {
+            Self::OK
+        }
+    }
+}
+
 impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
-- 
2.43.0


From d8336d21f684819809b7dac339c55a431ef0959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 35/38] fix: only Wasm targets replace the system allocator

---
 crates/wasm/sdk-alloc/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/sdk-alloc/src/lib.rs b/crates/wasm/sdk-alloc/src/lib.rs
index ac3a41b..933cdbc 100644
--- a/crates/wasm/sdk-alloc/src/lib.rs
+++ b/crates/wasm/sdk-alloc/src/lib.rs
@@ -20,7 +20,7 @@ compile_error!("Cannot have both `static-alloc` and `dynamic-alloc` features tur
 #[cfg(not(any(feature = "static-alloc", feature = "dynamic-alloc")))]
 compile_error!("Must have either `static-alloc` or `dynamic-alloc` features turned-on");
 
-#[cfg(feature = "dynamic-alloc")]
+#[cfg(all(feature = "dynamic-alloc", target_arch = "wasm32"))]
 extern crate wee_alloc;
 
 #[cfg(feature = "static-alloc")]
@@ -44,7 +44,9 @@ pub static SVM_ALLOC: StaticAlloc = StaticAlloc;
 /// The SVM project is using the `WeeAlloc for its `svm-codec` crate.
 /// We compile the codec it into Wasm and because we want to keep it a standalone component (i.e no imports of host functions)
 /// Then we can't used the `static-alloc` feature flag (which relies on the existence of `svm_static_alloc` import function).
-#[cfg(feature = "dynamic-alloc")]
+///
+/// On other targets (e.g. the `svm-runtime-ffi` library) the system allocator stays in charge.
+#[cfg(all(feature = "dynamic-alloc", target_arch = "wasm32"))]
 #[global_allocator]
 static SVM_ALLOC: wee_alloc::WeeAlloc = wee_alloc::WeeAlloc::INIT;
 
-- 
2.43.0


From 191f7bf98660ce9f15520afe69a45e86b8e55662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:14 +0000
Subject: [PATCH 36/38] fix: templates reading a bool from the storage comply
 with the Fixed-Gas rules

---
 crates/wasm/sdk-storage/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-storage/src/lib.rs b/crates/wasm/sdk-storage/src/lib.rs
index c591dff..9a47f61 100644
--- a/crates/wasm/sdk-storage/src/lib.rs
+++ b/crates/wasm/sdk-storage/src/lib.rs
@@ -50,7 +50,8 @@ pub fn get_bool<S: Storage>(var_id: u32) -> bool {
     match value {
         0 => false,
         1 => true,
-        _ => unreachable!(),
+        // `unreachable!` would bring in formatting code that isn't Fixed-Gas.
+        _ => svm_sdk_std::panic(),
     }
 }
 
-- 
2.43.0


From 4656a0a9c6466af94033dcbe971aa6fd098832e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:14 +0000
Subject: [PATCH 37/38] fix: an array index of 2^32 or more is out of the
 array's bounds

---
 crates/wasm/sdk-storage/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/wasm/sdk-storage/src/lib.rs b/crates/wasm/sdk-storage/src/lib.rs
index 9a47f61..c08bcb1 100644
--- a/crates/wasm/sdk-storage/src/lib.rs
+++ b/crates/wasm/sdk-storage/src/lib.rs
@@ -173,11 +173,10 @@ pub fn array_set_addr<S: Storage>(var_id: u32, index: usize, length: u32, value:
 
 #[inline]
 fn cell_offset(var_id: u32, index: usize, length: u32) -> u32 {
-    let index = index as u32;
-
-    if (index >= length) {
+    // The comparison takes place before narrowing down `index` to 32-bit.
+    if (index >= length as usize) {
         svm_sdk_std::panic();
     }
 
-    var_id + index
+    var_id + index as u32
 }
-- 
2.43.0


From ae92f64d9d83db1a6e7e52f41151805527b7f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:30 +0000
Subject: [PATCH 38/38] fix: templates returning an integer comply with the
 Fixed-Gas rules

---
 crates/wasm/abi-encoder/src/types/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/numeric.rs b/crates/wasm/abi-encoder/src/types/numeric.rs
index 78830fc..49ce42a 100644
--- a/crates/wasm/abi-encoder/src/types/numeric.rs
+++ b/crates/wasm/abi-encoder/src/types/numeric.rs
@@ -118,7 +118,7 @@ pub fn layout_integer(max_width_in_bytes: u32, width_in_bytes: u32, signed: bool
         (4, n, false) => U32_1B | ((n & 0b11) << 4),
         (8, n, true) => I64_1B | ((n & 0b111) << 4),
         (8, n, false) => U64_1B | ((n & 0b111) << 4),
-        _ => panic!("Invalid argument for layout information."),
+        _ => svm_sdk_std::panic(),
     }
 }
 
-- 
2.43.0

