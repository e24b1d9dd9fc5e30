From f9658c38717de5886bff220e1cfc0dfd97daa22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 01/18] fix: store the inspected stack before a
 constant-operand RETURN/REVERT

---
 crates/revmc-codegen/src/compiler/translate/peephole.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/revmc-codegen/src/compiler/translate/peephole.rs b/crates/revmc-codegen/src/compiler/translate/peephole.rs
index a407dcb..8ee836e 100644
--- a/crates/revmc-codegen/src/compiler/translate/peephole.rs
+++ b/crates/revmc-codegen/src/compiler/translate/peephole.rs
@@ -328,6 +328,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             let ir_const = self.bcx.iconst(self.i8_type, ir as i64);
             let offset = self.bcx.iconst(self.isize_type, offset as i64);
             let len = self.bcx.iconst(self.isize_type, len as i64);
+            self.sync_diverging_stack_effect();
             let _ = self.call_builtin(Builtin::DoReturnCC, &[self.ecx, offset, len, ir_const]);
             self.bcx.unreachable();
             true
-- 
2.43.0


From 41c15debbad464d7273db71a2c28d75ea451d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:59 +0000
Subject: [PATCH 02/18] fix: LOG1..LOG4 read their memory range from the top
 two operands

---
 crates/revmc-codegen/src/bytecode/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..7a086a2 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,9 +710,14 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
-                [Some((operand(0), operand(1))), None]
-            }
+            op::KECCAK256
+            | op::RETURN
+            | op::REVERT
+            | op::LOG0
+            | op::LOG1
+            | op::LOG2
+            | op::LOG3
+            | op::LOG4 => [Some((operand(0), operand(1))), None],
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
             op::MSTORE8 => [Some((operand(0), Some(1))), None],
             op::CALLDATACOPY | op::CODECOPY | op::RETURNDATACOPY => {
@@ -723,10 +728,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From 6d8438cd91498b67b2ada6246d6e5d2298f94bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 03/18] fix: an invalid DUPN/SWAPN/EXCHANGE immediate ends the
 block

---
 crates/revmc-codegen/src/bytecode/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 7a086a2..2733e29 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -1162,6 +1162,9 @@ impl InstData {
                 self.opcode,
                 op::STOP | op::RETURN | op::REVERT | op::INVALID | op::SELFDESTRUCT
             )
+            // An invalid immediate is decoded as having no stack I/O, see `compute_stack_io`.
+            || (matches!(self.opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
+                && self.stack_io == (0, 0))
     }
 
     /// Returns `true` if this instruction may suspend execution.
-- 
2.43.0


From 2da958423714f1b71d17389539aca1c8c0943644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:56 +0000
Subject: [PATCH 04/18] fix: a PUSH in an invalid DUPN/SWAPN/EXCHANGE immediate
 masks the bytes after it

---
 crates/revmc-codegen/src/bytecode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2733e29..7ef318b 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -304,12 +304,13 @@ impl<'a> Bytecode<'a> {
 
             // EIP-8024: JUMPDEST analysis is unchanged by DUPN/SWAPN/EXCHANGE. Their
             // immediate byte is NOT masked, so 0x5b in that position is a valid jump
-            // target. When the immediate is 0x5b, rewind the iterator so it is re-yielded
-            // and processed as a normal JUMPDEST by the loop.
+            // target and a PUSH there masks the bytes after it. When the immediate is one of
+            // these, rewind the iterator so it is re-yielded and processed as a normal
+            // instruction by the loop.
             if matches!(opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
                 && !info.is_unknown()
                 && !info.is_disabled()
-                && immediate == Some(&[op::JUMPDEST])
+                && matches!(immediate, Some(&[op::JUMPDEST..=op::PUSH32]))
             {
                 // SAFETY: we just consumed the 1-byte immediate.
                 unsafe { iter.rewind(1) };
-- 
2.43.0


From fc3b2487629cc02eaf03ec9e7ef7ef638f2c6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:53 +0000
Subject: [PATCH 05/18] fix: a stale worker result must not disturb a request
 made after the clear

---
 crates/revmc-runtime/src/runtime/backend.rs | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..77fbfe6 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -494,6 +494,19 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear). The entry for this
+        // key, if any, belongs to a request made after the clear and must not be touched.
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -508,19 +521,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From 0e56e89d188d605c81a63452d5d93ef90e1e2770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:53 +0000
Subject: [PATCH 06/18] fix: pending_jobs counts compilations discarded by a
 clear forever

---
 crates/revmc-runtime/src/runtime/backend.rs | 1 +
 crates/revmc-runtime/src/runtime/stats.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 77fbfe6..e828e2c 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -503,6 +503,7 @@ impl BackendState {
                 current_gen = self.generation,
                 "discarding stale worker result",
             );
+            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
             result.sync_notifier.notify();
             return;
         }
diff --git a/crates/revmc-runtime/src/runtime/stats.rs b/crates/revmc-runtime/src/runtime/stats.rs
index 89de1d4..a989982 100644
--- a/crates/revmc-runtime/src/runtime/stats.rs
+++ b/crates/revmc-runtime/src/runtime/stats.rs
@@ -21,6 +21,8 @@ pub(crate) struct RuntimeStats {
     pub(crate) compilations_succeeded: AtomicU64,
     /// Total number of failed compilations (JIT + AOT).
     pub(crate) compilations_failed: AtomicU64,
+    /// Total number of compilations whose result was discarded because of a clear.
+    pub(crate) compilations_discarded: AtomicU64,
     /// Total number of out-of-process JIT helper processes spawned successfully.
     pub(crate) jit_helper_spawns: AtomicU64,
     /// Total number of failed out-of-process JIT helper spawn attempts.
@@ -136,7 +138,9 @@ impl RuntimeStats {
         let dispatched = self.compilations_dispatched.load(Ordering::Relaxed);
         let succeeded = self.compilations_succeeded.load(Ordering::Relaxed);
         let failed = self.compilations_failed.load(Ordering::Relaxed);
-        let pending_jobs = dispatched.saturating_sub(succeeded.saturating_add(failed));
+        let discarded = self.compilations_discarded.load(Ordering::Relaxed);
+        let pending_jobs = dispatched
+            .saturating_sub(succeeded.saturating_add(failed).saturating_add(discarded));
 
         RuntimeStatsSnapshot {
             lookup_hits: self.lookup_hits.load(Ordering::Relaxed),
-- 
2.43.0


From 32f9d5048fa20a3fcfff2be10428f1b85c4b0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:53 +0000
Subject: [PATCH 07/18] fix: clears on a backend that was never started block
 once the channel is full

---
 crates/revmc-runtime/src/runtime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index d44e5b5..9490bda 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -344,16 +344,19 @@ impl JitBackend {
     /// All compiled programs are removed from the map. Active references
     /// held by callers remain valid until dropped.
     pub fn clear_resident(&self) {
+        let _ = self.ensure_started();
         let _ = self.inner.tx.send(Command::ClearResident);
     }
 
     /// Clears persisted artifacts from the artifact store.
     pub fn clear_persisted(&self) {
+        let _ = self.ensure_started();
         let _ = self.inner.tx.send(Command::ClearPersisted);
     }
 
     /// Clears both the resident map and persisted artifacts.
     pub fn clear_all(&self) {
+        let _ = self.ensure_started();
         let _ = self.inner.tx.send(Command::ClearAll);
     }
 
-- 
2.43.0


From 25af1da2273d9b43966fb58a34350481d590a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:53 +0000
Subject: [PATCH 08/18] fix: an unbounded jit_max_pending_jobs overflows the
 entry limit

---
 crates/revmc-runtime/src/runtime/backend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index e828e2c..f65fbfa 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -310,7 +310,7 @@ impl BackendState {
         }
 
         if matches!(mode, AdmitMode::Observed) {
-            let max_entries = self.tuning.jit_max_pending_jobs * 10;
+            let max_entries = self.tuning.jit_max_pending_jobs.saturating_mul(10);
             if !self.entries.contains_key(&key) && self.entries.len() >= max_entries {
                 return;
             }
-- 
2.43.0


From e8f23ae1d7730fde8767c07b01f14a1632e82f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:37 +0000
Subject: [PATCH 09/18] fix: RuntimeArtifactStore overwrites artifacts in place

---
 crates/revmc-runtime/src/runtime/storage.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/storage.rs b/crates/revmc-runtime/src/runtime/storage.rs
index 5b85f30..80a9462 100644
--- a/crates/revmc-runtime/src/runtime/storage.rs
+++ b/crates/revmc-runtime/src/runtime/storage.rs
@@ -4,7 +4,7 @@ use crate::{OptimizationLevel, eyre};
 use alloy_primitives::B256;
 use dashmap::DashMap;
 use revm_primitives::hardfork::SpecId;
-use std::{fs, path::PathBuf};
+use std::{fs, io::Write, path::PathBuf};
 
 /// Runtime cache key: the minimal identity for a compiled program at runtime.
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
@@ -142,7 +142,11 @@ impl ArtifactStore for RuntimeArtifactStore {
         dylib_bytes: &[u8],
     ) -> eyre::Result<()> {
         let path = self.artifact_path(key);
-        fs::write(&path, dylib_bytes)?;
+        // Never write in place: a previous version of this file may be loaded, and must also
+        // survive a failed write.
+        let mut file = tempfile::NamedTempFile::new_in(self.dir.path())?;
+        file.write_all(dylib_bytes)?;
+        file.persist(&path)?;
         self.artifacts
             .insert(key.clone(), StoredArtifact { manifest: manifest.clone(), dylib_path: path });
         Ok(())
-- 
2.43.0


From 37ea102567d46bd2270a80f91a7c1a93067337c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:37 +0000
Subject: [PATCH 10/18] fix: evicting a loaded artifact forgets the compilation
 in flight for its key

---
 crates/revmc-runtime/src/runtime/backend.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index f65fbfa..943adeb 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -491,6 +491,15 @@ impl BackendState {
         self.resident_meta.remove(key);
     }
 
+    fn evict(&mut self, key: &RuntimeCacheKey) {
+        self.remove_resident(key);
+        // A compilation may be in flight even though an AOT artifact was loaded meanwhile.
+        if self.entries.get(key).is_some_and(|entry| entry.phase != EntryPhase::Working) {
+            self.entries.remove(key);
+        }
+        self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
+    }
+
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
@@ -744,9 +753,7 @@ impl BackendState {
                     spec_id = ?key.spec_id,
                     "evicting idle entry",
                 );
-                self.remove_resident(key);
-                self.entries.remove(key);
-                self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
+                self.evict(key);
             }
         }
 
@@ -784,9 +791,7 @@ impl BackendState {
                     spec_id = ?key.spec_id,
                     "evicting entry to stay within memory budget",
                 );
-                self.remove_resident(&key);
-                self.entries.remove(&key);
-                self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
+                self.evict(&key);
             }
         }
     }
-- 
2.43.0


From b997a54d970b856b9b9f8a7a944eaf883537af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:17 +0000
Subject: [PATCH 11/18] fix: recompiling code whose evicted program is still
 held fails with a duplicate symbol

---
 crates/revmc-runtime/src/runtime/backend.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 943adeb..f615b81 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -218,6 +218,8 @@ struct BackendState {
     pending_jobs: usize,
     /// Monotonically increasing generation counter, bumped on clear/invalidation.
     generation: u64,
+    /// Number of JIT symbol names handed out.
+    jit_symbols: u64,
     /// Last time an eviction sweep was run.
     last_sweep: Instant,
     /// Optional user callback for compilation events.
@@ -348,15 +350,19 @@ impl BackendState {
             return;
         }
 
-        let prefix = match kind {
-            CompilationKind::Jit => "jit",
-            CompilationKind::Aot => "aot",
-        };
         let opt_level = match kind {
             CompilationKind::Jit => self.tuning.jit_opt_level,
             CompilationKind::Aot => self.tuning.aot_opt_level,
         };
-        let symbol = format!("{prefix}_{:x}_{:?}", key.code_hash, key.spec_id);
+        let symbol = match kind {
+            // A program compiled for this key earlier keeps its symbol defined in the worker's
+            // JITDylib for as long as a caller holds it, so JIT symbols are never reused.
+            CompilationKind::Jit => {
+                self.jit_symbols += 1;
+                format!("jit_{:x}_{:?}_{}", key.code_hash, key.spec_id, self.jit_symbols)
+            }
+            CompilationKind::Aot => format!("aot_{:x}_{:?}", key.code_hash, key.spec_id),
+        };
         let job = CompileJob {
             kind,
             key,
@@ -842,6 +848,7 @@ pub(crate) fn run(
         aot: config.aot,
         pending_jobs: 0,
         generation: 0,
+        jit_symbols: 0,
         last_sweep: now,
         on_compilation: config.on_compilation,
     };
-- 
2.43.0


From c3391fc9153075d410ea17a05d6b15fd548b3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:24 +0000
Subject: [PATCH 12/18] fix: DUPN/SWAPN/EXCHANGE are printed with the encoded
 byte, which assembles to something else

---
 crates/revmc-codegen/src/bytecode/opcode.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 6237bc6..5bd4256 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -176,9 +176,18 @@ impl fmt::Display for Opcode<'_> {
             Some(s) => f.write_str(s.name()),
             None => write!(f, "UNKNOWN(0x{:02x})", self.opcode),
         }?;
-        match self.immediate {
-            Some(imm) => write!(f, " {}", revm_primitives::hex::encode_prefixed(imm)),
-            None => Ok(()),
+        // `DUPN`, `SWAPN` and `EXCHANGE` are written with stack indices in assembly.
+        match (self.opcode, self.immediate) {
+            (op::DUPN | op::SWAPN, Some(&[x])) => match decode_single(x) {
+                Some(n) => write!(f, " {n}"),
+                None => write!(f, " INVALID(0x{x:02x})"),
+            },
+            (op::EXCHANGE, Some(&[x])) => match decode_pair(x) {
+                Some((n, m)) => write!(f, " {n} {m}"),
+                None => write!(f, " INVALID(0x{x:02x})"),
+            },
+            (_, Some(imm)) => write!(f, " {}", revm_primitives::hex::encode_prefixed(imm)),
+            (_, None) => Ok(()),
         }
     }
 }
-- 
2.43.0


From e538c5990c628a9116cb763ac39a38c26ee8601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 13/18] fix: EXCHANGE pairs that reach past depth 16 do not
 assemble

---
 crates/revmc-codegen/src/bytecode/opcode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 5bd4256..7a085ed 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -267,12 +267,8 @@ pub fn encode_pair(n: u8, m: u8) -> Option<u8> {
     };
 
     // Case 1: q < r → n = q+1, m = r+1.
-    if n < m {
-        try_k(n - 1, m - 1)
-    } else {
-        // Case 2: q >= r → n = r+1, m = 29-q.
-        if let Some(q) = 29u8.checked_sub(m) { try_k(q, n - 1) } else { None }
-    }
+    // Case 2: q >= r → n = r+1, m = 29-q.
+    try_k(n - 1, m - 1).or_else(|| try_k(29u8.checked_sub(m)?, n - 1))
 }
 
 /// Returns a string representation of the given bytecode.
-- 
2.43.0


From df07c3444fb428bf0b5c0b3b68eb42fcfa9c1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:10 +0000
Subject: [PATCH 14/18] fix: ask on_miss once per code and transaction, so that
 frames resume in the engine that started them

---
 crates/revmc-context/src/jit_evm.rs | 58 ++++++++++++++++-------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/crates/revmc-context/src/jit_evm.rs b/crates/revmc-context/src/jit_evm.rs
index dc2c8ce..c763cd8 100644
--- a/crates/revmc-context/src/jit_evm.rs
+++ b/crates/revmc-context/src/jit_evm.rs
@@ -28,12 +28,18 @@ use crate::{EvmCompilerFn, RawEvmCompilerFn};
 ///
 /// The `F` parameter is a lookup function `(B256, &[u8]) -> Option<EvmCompilerFn>` called
 /// when a code hash is not found in the precompiled map. Return `None` to fall
-/// back to the interpreter; return `Some(f)` to execute `f` (e.g. compile on the fly).
+/// back to the interpreter; return `Some(f)` to execute `f` (e.g. compile on the fly). It is called
+/// at most once per code hash and transaction.
 #[allow(missing_debug_implementations)]
 pub struct JitEvm<EVM, F = fn(B256, &[u8]) -> Option<EvmCompilerFn>> {
     inner: EVM,
     functions: B256Map<RawEvmCompilerFn>,
     on_miss: F,
+    /// Answers of `on_miss` in the current transaction.
+    ///
+    /// A frame has to be resumed by whatever started it, so an answer cannot change while frames
+    /// of that code may be suspended.
+    misses: B256Map<Option<EvmCompilerFn>>,
 }
 
 fn no_miss(_: B256, _: &[u8]) -> Option<EvmCompilerFn> {
@@ -43,14 +49,14 @@ fn no_miss(_: B256, _: &[u8]) -> Option<EvmCompilerFn> {
 impl<EVM> JitEvm<EVM> {
     /// Create a new JIT EVM wrapper that falls back to the interpreter on miss.
     pub fn new(inner: EVM, functions: B256Map<RawEvmCompilerFn>) -> Self {
-        Self { inner, functions, on_miss: no_miss }
+        Self { inner, functions, on_miss: no_miss, misses: B256Map::default() }
     }
 }
 
 impl<EVM, F> JitEvm<EVM, F> {
     /// Create a new JIT EVM wrapper with a custom miss handler.
     pub fn with_on_miss(inner: EVM, functions: B256Map<RawEvmCompilerFn>, on_miss: F) -> Self {
-        Self { inner, functions, on_miss }
+        Self { inner, functions, on_miss, misses: B256Map::default() }
     }
 
     /// Consumes the wrapper and returns the inner EVM.
@@ -59,6 +65,25 @@ impl<EVM, F> JitEvm<EVM, F> {
     }
 }
 
+impl<EVM, F> JitEvm<EVM, F>
+where
+    EVM: EvmTr<Frame = EthFrame>,
+    F: FnMut(B256, &[u8]) -> Option<EvmCompilerFn>,
+{
+    /// Returns the function to run the current frame with, if any.
+    fn current_function(&mut self) -> Option<EvmCompilerFn> {
+        let frame = self.inner.frame_stack().get();
+        let code_hash = frame.interpreter.bytecode.get_or_calculate_hash();
+        if let Some(&raw_fn) = self.functions.get(&code_hash) {
+            return Some(EvmCompilerFn::new(raw_fn));
+        }
+        *self.misses.entry(code_hash).or_insert_with(|| {
+            let code = frame.interpreter.bytecode.original_bytes();
+            (self.on_miss)(code_hash, &code)
+        })
+    }
+}
+
 impl<EVM, F> core::ops::Deref for JitEvm<EVM, F> {
     type Target = EVM;
     fn deref(&self) -> &EVM {
@@ -114,23 +139,16 @@ where
         ItemOrResult<&mut Self::Frame, <Self::Frame as FrameTr>::FrameResult>,
         ContextDbError<Self::Context>,
     > {
+        if frame_input.depth == 0 {
+            self.misses.clear();
+        }
         self.inner.frame_init(frame_input)
     }
 
     fn frame_run(
         &mut self,
     ) -> Result<FrameInitOrResult<Self::Frame>, ContextDbError<Self::Context>> {
-        let frame = self.inner.frame_stack().get();
-        let code_hash = frame.interpreter.bytecode.get_or_calculate_hash();
-
-        let f = if let Some(&raw_fn) = self.functions.get(&code_hash) {
-            Some(EvmCompilerFn::new(raw_fn))
-        } else {
-            let code = frame.interpreter.bytecode.original_bytes();
-            (self.on_miss)(code_hash, &code)
-        };
-
-        if let Some(f) = f {
+        if let Some(f) = self.current_function() {
             let (ctx, _, _, frame_stack) = self.inner.all_mut();
             let frame = frame_stack.get();
             let action = unsafe { f.call_with_interpreter(&mut frame.interpreter, ctx) };
@@ -233,17 +251,7 @@ where
     fn inspect_frame_run(
         &mut self,
     ) -> Result<FrameInitOrResult<Self::Frame>, ContextDbError<Self::Context>> {
-        let frame = self.inner.frame_stack().get();
-        let code_hash = frame.interpreter.bytecode.get_or_calculate_hash();
-
-        let f = if let Some(&raw_fn) = self.functions.get(&code_hash) {
-            Some(EvmCompilerFn::new(raw_fn))
-        } else {
-            let code = frame.interpreter.bytecode.original_bytes();
-            (self.on_miss)(code_hash, &code)
-        };
-
-        let Some(f) = f else {
+        let Some(f) = self.current_function() else {
             return self.inner.inspect_frame_run();
         };
 
-- 
2.43.0


From 05e909cad5790e4994234c9117b3b096e2ed7db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 15/18] fix: a helper that does not read its input hangs
 requests past the time-out

A job larger than the pipe's buffer blocked the caller in write(2) while it held
the lock on the helper's input, so neither the time-out nor a pause or clear was
ever reached. A writer thread now owns the pipe.
---
 .../src/runtime/out_of_process.rs             | 80 ++++++++++++-------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 25e8e2c..684a1d7 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -87,10 +87,6 @@ struct HelperJobResult {
     timings: CompileTimings,
 }
 
-struct HelperIo {
-    stdin: BufWriter<ChildStdin>,
-}
-
 pub(super) struct HelperProcess {
     inner: Mutex<Option<Arc<HelperProcessInner>>>,
     paused: Arc<AtomicBool>,
@@ -169,7 +165,9 @@ struct HelperProcessInner {
     path: PathBuf,
     init: HelperInit,
     child: Mutex<Child>,
-    io: Mutex<HelperIo>,
+    /// Encoded requests for the writer thread, so that callers never block on a helper that does
+    /// not read its input.
+    requests: chan::Sender<Vec<u8>>,
     pending: PendingResponses,
     pending_pauses: PendingPauses,
     reader: Mutex<Option<JoinHandle<()>>>,
@@ -210,6 +208,8 @@ impl HelperProcessInner {
         let reader_pending = pending.clone();
         let reader_pending_pauses = pending_pauses.clone();
         let reader_stats = stats.clone();
+        let (requests, request_rx) = chan::unbounded();
+        spawn_request_writer(stdin, request_rx, pending.clone(), pending_pauses.clone());
         let reader = std::thread::spawn(move || {
             let mut stdout = BufReader::new(stdout);
             loop {
@@ -227,12 +227,7 @@ impl HelperProcessInner {
                     }
                     Err(error) => {
                         reader_stats.jit_helper_disconnects.fetch_add(1, Ordering::Relaxed);
-                        for (_, tx) in reader_pending.lock().unwrap().drain() {
-                            let _ = tx.send(Err(error.clone()));
-                        }
-                        for (_, tx) in reader_pending_pauses.lock().unwrap().drain() {
-                            let _ = tx.send(Err(error.clone()));
-                        }
+                        fail_pending(&reader_pending, &reader_pending_pauses, &error);
                         break;
                     }
                 }
@@ -242,7 +237,7 @@ impl HelperProcessInner {
             path,
             init,
             child: Mutex::new(child),
-            io: Mutex::new(HelperIo { stdin }),
+            requests,
             pending,
             pending_pauses,
             reader: Mutex::new(Some(reader)),
@@ -268,16 +263,9 @@ impl HelperProcessInner {
         let (tx, rx) = chan::bounded(1);
         self.pending.lock().unwrap().insert(id, tx);
 
-        {
-            let mut io = self.io.lock().unwrap();
-            if let Err(e) = write_job(&mut io.stdin, id, job) {
-                self.pending.lock().unwrap().remove(&id);
-                return Err(format!("failed to write helper job: {e}"));
-            }
-            if let Err(e) = io.stdin.flush() {
-                self.pending.lock().unwrap().remove(&id);
-                return Err(format!("failed to flush helper job: {e}"));
-            }
+        if let Err(e) = self.send(|w| write_job(w, id, job)) {
+            self.pending.lock().unwrap().remove(&id);
+            return Err(format!("failed to write helper job: {e}"));
         }
 
         loop {
@@ -310,6 +298,17 @@ impl HelperProcessInner {
         }
     }
 
+    /// Queues a request for the writer thread.
+    fn send(
+        &self,
+        encode: impl FnOnce(&mut BufWriter<Vec<u8>>) -> std::io::Result<()>,
+    ) -> std::io::Result<()> {
+        let mut writer = BufWriter::new(Vec::new());
+        encode(&mut writer)?;
+        let request = writer.into_inner().map_err(|e| e.into_error())?;
+        self.requests.send(request).map_err(|_| std::io::ErrorKind::BrokenPipe.into())
+    }
+
     fn kill(&self) -> bool {
         let mut child = self.child.lock().unwrap();
         if matches!(child.try_wait(), Ok(Some(_))) {
@@ -334,10 +333,7 @@ impl HelperProcessInner {
         let (tx, rx) = chan::bounded(1);
         self.pending_pauses.lock().unwrap().insert(id, tx);
 
-        let send_result = {
-            let mut io = self.io.lock().unwrap();
-            write_pause(&mut io.stdin, id).and_then(|()| io.stdin.flush())
-        };
+        let send_result = self.send(|w| write_pause(w, id));
 
         if let Err(err) = send_result {
             self.pending_pauses.lock().unwrap().remove(&id);
@@ -369,10 +365,7 @@ impl HelperProcessInner {
 
     fn resume(&self) {
         self.signal(libc::SIGCONT, "resume");
-        let send_result = {
-            let mut io = self.io.lock().unwrap();
-            write_resume(&mut io.stdin).and_then(|()| io.stdin.flush())
-        };
+        let send_result = self.send(write_resume);
         if let Err(err) = send_result {
             self.stats.jit_helper_resume_failures.fetch_add(1, Ordering::Relaxed);
             warn!(%err, "failed to request JIT helper resume");
@@ -397,6 +390,33 @@ impl Drop for HelperProcessInner {
     }
 }
 
+/// Writes queued requests to the helper until it is gone or no more requests can be made.
+fn spawn_request_writer(
+    mut stdin: BufWriter<ChildStdin>,
+    requests: chan::Receiver<Vec<u8>>,
+    pending: PendingResponses,
+    pending_pauses: PendingPauses,
+) {
+    std::thread::spawn(move || {
+        for request in requests {
+            if let Err(err) = stdin.write_all(&request).and_then(|()| stdin.flush()) {
+                let error = format!("failed to write helper request: {err}");
+                fail_pending(&pending, &pending_pauses, &error);
+                break;
+            }
+        }
+    });
+}
+
+fn fail_pending(pending: &PendingResponses, pending_pauses: &PendingPauses, error: &str) {
+    for (_, tx) in pending.lock().unwrap().drain() {
+        let _ = tx.send(Err(error.to_string()));
+    }
+    for (_, tx) in pending_pauses.lock().unwrap().drain() {
+        let _ = tx.send(Err(error.to_string()));
+    }
+}
+
 fn apply_helper_limits(command: &mut Command, config: &RuntimeConfig) {
     let memory_limit = config.tuning.jit_helper_memory_limit_bytes;
     let cpu_count = config.tuning.jit_helper_cpu_count;
-- 
2.43.0


From d65cab26f7848c6acac17c0f7f7cd32952de37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:46 +0000
Subject: [PATCH 16/18] fix: folded EXP gas above u32::MAX is truncated

---
 crates/revmc-codegen/src/bytecode/fmt.rs       |  4 ++--
 .../src/bytecode/passes/sections.rs            | 18 ++++++++++++++----
 .../src/compiler/translate/mod.rs              |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/fmt.rs b/crates/revmc-codegen/src/bytecode/fmt.rs
index 1e23163..1586404 100644
--- a/crates/revmc-codegen/src/bytecode/fmt.rs
+++ b/crates/revmc-codegen/src/bytecode/fmt.rs
@@ -129,7 +129,7 @@ impl Bytecode<'_> {
                 write!(comment, "ic={:>ic_width$}", inst.index()).unwrap();
                 write!(comment, " pc={:>pc_width$}", self.pc(inst)).unwrap();
                 if !data.gas_section.is_empty() {
-                    write!(comment, " gas={}", data.gas_section.gas_cost).unwrap();
+                    write!(comment, " gas={}", data.gas_section.total()).unwrap();
                 }
                 if inst != block.insts.start && data.is_stack_section_head() {
                     write!(
@@ -422,7 +422,7 @@ impl<'a> Bytecode<'a> {
                 let mut op_str =
                     abbreviate_hex(&opcode.to_string()).replace('>', "\\>").replace('<', "\\<");
                 if !data.gas_section.is_empty() {
-                    write!(op_str, " [g={}]", data.gas_section.gas_cost).unwrap();
+                    write!(op_str, " [g={}]", data.gas_section.total()).unwrap();
                 }
                 write!(w, "{op_str}\\l")?;
             }
diff --git a/crates/revmc-codegen/src/bytecode/passes/sections.rs b/crates/revmc-codegen/src/bytecode/passes/sections.rs
index 40adb3b..4b4255b 100644
--- a/crates/revmc-codegen/src/bytecode/passes/sections.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/sections.rs
@@ -11,6 +11,9 @@ use revm_primitives::U256;
 pub(crate) struct GasSection {
     /// The total base gas cost of all instructions in the section.
     pub(crate) gas_cost: u32,
+    /// The part of the cost that does not fit in `gas_cost`. Only custom gas parameters are large
+    /// enough for this.
+    pub(crate) excess_gas_cost: u64,
 }
 
 impl fmt::Debug for GasSection {
@@ -18,7 +21,7 @@ impl fmt::Debug for GasSection {
         if self.is_empty() {
             f.write_str("GasSection::EMPTY")
         } else {
-            f.debug_struct("GasSection").field("gas_cost", &self.gas_cost).finish()
+            f.debug_struct("GasSection").field("gas_cost", &self.total()).finish()
         }
     }
 }
@@ -29,6 +32,12 @@ impl GasSection {
     pub(crate) fn is_empty(self) -> bool {
         self == Self::default()
     }
+
+    /// Returns the whole gas cost of the section.
+    #[inline]
+    pub(crate) fn total(self) -> u64 {
+        self.gas_cost as u64 + self.excess_gas_cost
+    }
 }
 
 /// A stack section tracks stack height requirements for a sequence of instructions.
@@ -90,13 +99,13 @@ impl GasSectionAnalysis {
     /// Accumulates a base gas cost.
     #[inline]
     pub(crate) fn process(&mut self, base_gas: u16) {
-        self.gas_cost += base_gas as u64;
+        self.gas_cost = self.gas_cost.saturating_add(base_gas as u64);
     }
 
     /// Accumulates extra gas (e.g. pre-computed dynamic gas for folded instructions).
     #[inline]
     pub(crate) fn process_extra(&mut self, gas: u64) {
-        self.gas_cost += gas;
+        self.gas_cost = self.gas_cost.saturating_add(gas);
     }
 
     fn save_to_reset(&mut self, bytecode: &mut Bytecode<'_>, next_section_inst: Inst) {
@@ -132,7 +141,8 @@ impl GasSectionAnalysis {
 
     /// Returns the current gas section.
     pub(crate) fn section(&self) -> GasSection {
-        GasSection { gas_cost: self.gas_cost.try_into().unwrap_or(u32::MAX) }
+        let gas_cost = self.gas_cost.try_into().unwrap_or(u32::MAX);
+        GasSection { gas_cost, excess_gas_cost: self.gas_cost - gas_cost as u64 }
     }
 }
 
diff --git a/crates/revmc-codegen/src/compiler/translate/mod.rs b/crates/revmc-codegen/src/compiler/translate/mod.rs
index 13f2bb1..1d44174 100644
--- a/crates/revmc-codegen/src/compiler/translate/mod.rs
+++ b/crates/revmc-codegen/src/compiler/translate/mod.rs
@@ -574,7 +574,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
         }
 
         // Pay static gas for the current section.
-        self.gas_cost_imm(data.gas_section.gas_cost as u64);
+        self.gas_cost_imm(data.gas_section.total());
 
         // Compute len_before for this instruction.
         // At section heads: load from the alloca once and reset the section offset.
-- 
2.43.0


From 8efef0f756da9f0ef013fe813415285c57df74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:19 +0000
Subject: [PATCH 17/18] fix: blocks with different pushes are merged as
 duplicates

The fingerprint dropped zero bytes of immediates, so 'PUSH3 0x000000 DUP1' and 'PUSH3 0x800000'
had the same one.
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..8d5429f 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,8 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width, so that different sequences never encode to the same bytes.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From 7b35855ebe1dbe0b3854711e91eefa2ac163a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:27 +0000
Subject: [PATCH 18/18] fix: values below a clamped abstract stack are taken
 for a stack underflow

A block that pops more than the 64 tracked slots was treated as halting, so its successors missed
an incoming state and were compiled with the constants of the other predecessors.
---
 .../src/bytecode/passes/block_analysis.rs          | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cb8afa3..35d4a41 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -167,6 +167,9 @@ impl ConstSetInterner {
 /// treat the out-of-range slot as `Top` rather than aborting block interpretation.
 const MAX_ABS_STACK_DEPTH: usize = 64;
 
+/// Maximum height of the EVM stack.
+const STACK_LIMIT: usize = 1024;
+
 /// Abstract state at the entry of a block.
 #[derive(Clone, Debug)]
 enum BlockState {
@@ -195,8 +198,7 @@ impl BlockState {
                 let mut changed = false;
 
                 // Clamp to MAX_ABS_STACK_DEPTH by only joining the top portion;
-                // elements below that are unreachable by any EVM instruction and
-                // discarding them preserves soundness.
+                // elements below that are treated as `Top` when the block is interpreted.
                 let join_len = new_len.min(MAX_ABS_STACK_DEPTH);
 
                 // Resize existing to join_len: pad at bottom with Top or truncate.
@@ -1010,7 +1012,13 @@ impl Bytecode<'_> {
             // Copy input state into reusable buffer.
             stack_buf.clear();
             match &block_states[bid] {
-                BlockState::Known(s) => stack_buf.extend_from_slice(s),
+                BlockState::Known(s) => {
+                    // Whatever is below a clamped stack is unknown, not missing.
+                    if s.len() == MAX_ABS_STACK_DEPTH {
+                        stack_buf.resize(STACK_LIMIT - s.len(), AbsValue::Top);
+                    }
+                    stack_buf.extend_from_slice(s);
+                }
                 BlockState::Bottom => continue,
             };
 
-- 
2.43.0

