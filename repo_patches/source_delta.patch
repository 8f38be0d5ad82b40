From 916e6883b963adb1d8ad0860a103a3be3e625e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 1/6] fix: keep shift_right inside the board

shift_right(0) and shift_right(1) moved the first square of the eighth
(respectively ninth) file into bit 63 of the low word, which is no
square: the result was not equal to the same set built otherwise, and
popping it returned a square it should not contain.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From a1686f030f0ee0510f3221c9a70a2420cc463c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 2/6] fix: do not report a king that is no longer on the board

piece_set recorded where a king was placed, but not that it was removed
or replaced: king_position kept returning the old square, and two
positions with the same contents could compare as different (==) and
equal (cmp) at once.
---
 shogi_core/src/position.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..a4032c0 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -601,11 +601,12 @@ impl PartialPosition {
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] |= single;
-            if let Piece::B_K = piece {
-                self.king_square[0] = OptionSquare::from(Some(square));
-            }
-            if let Piece::W_K = piece {
-                self.king_square[1] = OptionSquare::from(Some(square));
+        }
+        // `king_square` must depend on nothing but the board.
+        for king in [Piece::B_K, Piece::W_K] {
+            if old == Some(king) || piece == Some(king) {
+                let square = self.piece_bitboard(king).pop();
+                self.king_square[king.color().array_index()] = OptionSquare::from(square);
             }
         }
     }
-- 
2.43.0


From 3c12dcca238424a7288185eafc5c3adf460fc71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 3/6] fix: align the arena of the no_std allocator

Addresses were aligned relative to an arena whose own alignment is 1; the
linker put it at an odd address, so that every Position allocated by the
no_std library was misaligned.
---
 shogi_core_c/src/no_std.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..70c75c3 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,11 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Offsets in the arena are aligned, so the arena itself has to be aligned to MAX_SUPPORTED_ALIGN.
+    #[repr(C, align(4096))]
+    struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
+
+    static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
@@ -107,7 +111,7 @@ mod simple_alloc {
             {
                 return null_mut();
             };
-            (ARENA_BSS.get() as *mut u8).add(allocated)
+            (ARENA_BSS.0.get() as *mut u8).add(allocated)
         }
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
-- 
2.43.0


From 53db30537a8f712a6bf1a856f5d3e23e0abee197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 4/6] fix: let C callers use Square_from_u8 and Square_shift

The header declared both as returning struct Option_Square, an incomplete
type, so that no C program could call them. They now have C interfaces
that return OptionSquare, as the other functions of this kind do; the Rust
functions stay as they were.
---
 include/shogi_core.h     | 28 ++++------------------------
 shogi_core/src/square.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index cb221b5..f8e5948 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -288,8 +288,6 @@ typedef uint8_t PieceKind;
 typedef struct Game Game;
 #endif
 
-typedef struct Option_Square Option_Square;
-
 /**
  * A record of a game. A position and how a game is resolved.
  */
@@ -1006,17 +1004,9 @@ uint8_t Square_file(Square self);
 Square Square_flip(Square self);
 
 /**
- * Converts a [`u8`] to a [`Square`]. If `value` is not in range `1..=81`, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::from_u8(21), Some(Square::SQ_3C));
- * assert_eq!(Square::from_u8(0), None);
- * assert_eq!(Square::from_u8(82), None);
- * ```
+ * C interface to [`Square::from_u8`].
  */
-struct Option_Square Square_from_u8(uint8_t value);
+OptionSquare Square_from_u8(uint8_t value);
 
 /**
  * C interface to [`Square::from_u8_unchecked`].
@@ -1070,18 +1060,8 @@ uint8_t Square_relative_file(Square self, Color color);
 uint8_t Square_relative_rank(Square self, Color color);
 
 /**
- * Shifts `self` by the given arguments. If the result would be out of the board, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::SQ_3C.shift(-1, 3), Some(Square::SQ_2F));
- * assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
- * assert_eq!(Square::SQ_3C.shift(-4, 3), None);
- * ```
+ * C interface to [`Square::shift`].
  */
-struct Option_Square Square_shift(Square self,
-                                  int8_t file_delta,
-                                  int8_t rank_delta);
+OptionSquare Square_shift(Square self, int8_t file_delta, int8_t rank_delta);
 
 #endif /* shogi_core_bindings_h */
diff --git a/shogi_core/src/square.rs b/shogi_core/src/square.rs
index 09ba7c2..0abcd73 100644
--- a/shogi_core/src/square.rs
+++ b/shogi_core/src/square.rs
@@ -151,7 +151,6 @@ impl Square {
     /// assert_eq!(Square::from_u8(82), None);
     /// ```
     #[inline]
-    #[export_name = "Square_from_u8"]
     pub extern "C" fn from_u8(value: u8) -> Option<Self> {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 31 c0       xorl %eax, %eax
@@ -165,6 +164,12 @@ impl Square {
         }
     }
 
+    /// C interface to [`Square::from_u8`].
+    #[no_mangle]
+    pub extern "C" fn Square_from_u8(value: u8) -> OptionSquare {
+        Square::from_u8(value).into()
+    }
+
     /// Converts [`u8`] to [`Square`] without checking.
     ///
     /// # Safety
@@ -199,7 +204,6 @@ impl Square {
     /// assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
     /// assert_eq!(Square::SQ_3C.shift(-4, 3), None);
     /// ```
-    #[export_name = "Square_shift"]
     pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
         self.sanity_check();
         let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);
@@ -211,6 +215,12 @@ impl Square {
         Some(unsafe { Self::from_u8_unchecked((file_m1 * 9 + rank_m1 + 1) as u8) })
     }
 
+    /// C interface to [`Square::shift`].
+    #[no_mangle]
+    pub extern "C" fn Square_shift(self, file_delta: i8, rank_delta: i8) -> OptionSquare {
+        self.shift(file_delta, rank_delta).into()
+    }
+
     /// Returns the index of `self` for array accesses. This function returns an integer in range `0..Square::MAX`.
     ///
     /// Since: 0.1.2
-- 
2.43.0


From f3feade2d9b6b3718a92eefd1ceb81ad4b359fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 5/6] fix: implement the documented traits for OptionPieceKind

The documentation promises Eq, PartialEq, Clone and Debug for every type,
Ord with the ord feature and Hash with the hash feature; OptionPieceKind
alone had none of them.
---
 shogi_core/src/piece_kind.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shogi_core/src/piece_kind.rs b/shogi_core/src/piece_kind.rs
index ec5dbd0..7432b9e 100644
--- a/shogi_core/src/piece_kind.rs
+++ b/shogi_core/src/piece_kind.rs
@@ -316,6 +316,7 @@ impl ToUsi for PieceKind {
 ///
 /// See: <https://github.com/eqrion/cbindgen/issues/326>.
 #[repr(transparent)]
+#[derive(Eq, PartialEq, Clone, Copy, Debug)]
 pub struct OptionPieceKind(u8);
 
 impl From<Option<PieceKind>> for OptionPieceKind {
@@ -341,6 +342,9 @@ impl From<OptionPieceKind> for Option<PieceKind> {
     }
 }
 
+impl_ord_for_single_field!(OptionPieceKind);
+impl_hash_for_single_field!(OptionPieceKind);
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3d73d35fb225c0b0d276bd156fb9eed58de458f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 6/6] verif hook: let no_std.rs be included in a model checking
 harness under cfg(shogi_verif)

---
 shogi_core_c/src/no_std.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 70c75c3..5da00bc 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -1,6 +1,9 @@
 // unoptimized version of memory-related functions
 
-#[no_mangle]
+// Under cfg(shogi_verif) this file can be included in an ordinary program: it then defines neither global symbols nor
+// language items.
+
+#[cfg_attr(not(shogi_verif), no_mangle)]
 pub unsafe extern "C" fn memcpy(dest: *mut u8, src: *const u8, n: usize) -> *mut u8 {
     for i in 0..n {
         let value = core::ptr::read(src.add(i));
@@ -9,7 +12,7 @@ pub unsafe extern "C" fn memcpy(dest: *mut u8, src: *const u8, n: usize) -> *mut
     dest
 }
 
-#[no_mangle]
+#[cfg_attr(not(shogi_verif), no_mangle)]
 pub unsafe extern "C" fn memset(b: *mut u8, c: i32, n: usize) -> *mut u8 {
     for i in 0..n {
         core::ptr::write(b.add(i), c as u8);
@@ -17,7 +20,7 @@ pub unsafe extern "C" fn memset(b: *mut u8, c: i32, n: usize) -> *mut u8 {
     b
 }
 
-#[no_mangle]
+#[cfg_attr(not(shogi_verif), no_mangle)]
 pub unsafe extern "C" fn memcmp(s1: *const u8, s2: *const u8, n: usize) -> i32 {
     for i in 0..n {
         let value1 = core::ptr::read(s1.add(i));
@@ -31,7 +34,7 @@ pub unsafe extern "C" fn memcmp(s1: *const u8, s2: *const u8, n: usize) -> i32 {
 
 // Found in https://refspecs.linuxfoundation.org/LSB_1.1.0/gLSB/baselib---bzero-1.html.
 // Some targets (cdylib, rustc 1.60, x86_64-apple-darwin, LLVM version 3.9.0svn) might need this symbol.
-#[no_mangle]
+#[cfg_attr(not(shogi_verif), no_mangle)]
 pub unsafe extern "C" fn __bzero(s: *mut u8, n: usize) {
     // Really want to suppress all optimizations.
     // memset(s, 0, n) seems to be optimized to ___bzero(s, n), which causes an infinite loop.
@@ -42,6 +45,7 @@ pub unsafe extern "C" fn __bzero(s: *mut u8, n: usize) {
 
 // panic-related functions
 
+#[cfg(not(shogi_verif))]
 #[panic_handler]
 fn panic(_panic: &core::panic::PanicInfo<'_>) -> ! {
     loop {}
@@ -49,7 +53,7 @@ fn panic(_panic: &core::panic::PanicInfo<'_>) -> ! {
 
 // alloc-related functions
 
-#[cfg(feature = "alloc")]
+#[cfg(all(feature = "alloc", not(shogi_verif)))]
 #[alloc_error_handler]
 fn error_handler(_: core::alloc::Layout) -> ! {
     loop {}
@@ -58,11 +62,16 @@ fn error_handler(_: core::alloc::Layout) -> ! {
 // SimpleAllocator found in https://doc.rust-lang.org/core/alloc/trait.GlobalAlloc.html.
 // Modified so that ARENA_BSS is on .bss section and SimpleAllocator doesn't take much space.
 #[cfg(feature = "alloc")]
-mod simple_alloc {
+pub mod simple_alloc {
     use core::alloc::{GlobalAlloc, Layout};
     use core::cell::UnsafeCell;
     use core::ptr::null_mut;
-    use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+    // Verification only: atomics under the control of a model checker's scheduler.
+    #[cfg(shogi_verif)]
+    use crate::verif_sync as atomic;
+    use atomic::{AtomicUsize, Ordering::SeqCst};
+    #[cfg(not(shogi_verif))]
+    use core::sync::atomic;
     const ARENA_SIZE: usize = 128 * 1024;
     const MAX_SUPPORTED_ALIGN: usize = 4096;
     struct SimpleAllocator {
@@ -75,11 +84,17 @@ mod simple_alloc {
 
     static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
-    #[global_allocator]
+    #[cfg_attr(not(shogi_verif), global_allocator)]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
         remaining: AtomicUsize::new(ARENA_SIZE),
     };
 
+    // Verification only: the allocator, which is not the global one then.
+    #[cfg(shogi_verif)]
+    pub fn verif_allocator() -> &'static dyn GlobalAlloc {
+        &ALLOCATOR
+    }
+
     unsafe impl Sync for SimpleAllocator {}
 
     unsafe impl GlobalAlloc for SimpleAllocator {
-- 
2.43.0

