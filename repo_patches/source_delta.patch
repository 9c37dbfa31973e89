From a82fb3ffb9f87dafae0cc90dfef3e072a5eca406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:56 +0000
Subject: [PATCH 1/6] fix: write foreground args for a runtime Rgb foreground
 color

`Color::Rgb(..)` wrote its background arguments when asked for the foreground
arguments, so a runtime style with an rgb foreground and two or more effects
painted the background instead.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From 3b3a3149aeb462b075b842ec8a72c35db9d3a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:56 +0000
Subject: [PATCH 2/6] fix: use SGR 74 for the subscript effect

SubScript emitted 73, which is superscript.
---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From 9d42513a372c1d15fa60f673357208c9cc932430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 3/6] fix: reject mode and stream names followed by a padding
 byte

Names were compared after zero padding and case folding, so the six byte
inputs `never\0` and `never ` matched the padded five byte name `never`.
---
 src/mode.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..bdf2b1c 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -68,13 +68,15 @@ impl Mode {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, ModeFromStrError> {
-        const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\0") | ASCII_CASE_MASK_SIMD;
-        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
-        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\0") | ASCII_CASE_MASK_SIMD;
+        // the last byte is the length of the name, so that the padding after a short
+        // name can't be matched by a longer input (`never` vs `never\0` or `never `)
+        const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\x06") | ASCII_CASE_MASK_SIMD;
+        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\x06") | ASCII_CASE_MASK_SIMD;
+        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\x05") | ASCII_CASE_MASK_SIMD;
 
         let data = match *s {
-            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
-            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
+            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 5]),
+            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 6]),
             _ => return Err(ModeFromStrError),
         };
 
@@ -132,14 +134,15 @@ impl Stream {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, StreamFromStrError> {
-        const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\0") | ASCII_CASE_MASK_SIMD;
-        const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\0") | ASCII_CASE_MASK_SIMD;
-        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
-        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\0") | ASCII_CASE_MASK_SIMD;
+        // the last byte is the length of the name, see `Mode::from_ascii_bytes`
+        const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\x06") | ASCII_CASE_MASK_SIMD;
+        const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\x06") | ASCII_CASE_MASK_SIMD;
+        const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\x06") | ASCII_CASE_MASK_SIMD;
+        const NEVER_STR: u64 = u64::from_ne_bytes(*b"never\0\0\x05") | ASCII_CASE_MASK_SIMD;
 
         let data = match *s {
-            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 0]),
-            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 0]),
+            [a, b, c, d, e] => u64::from_ne_bytes([a, b, c, d, e, 0, 0, 5]),
+            [a, b, c, d, e, f] => u64::from_ne_bytes([a, b, c, d, e, f, 0, 6]),
             _ => return Err(StreamFromStrError),
         };
 
-- 
2.43.0


From 5619b212ddc300faca327725e1d549ce73227f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 4/6] fix: provide the environment mode functions with only
 supports-color

The README promises `Mode::from_env` and `set_coloring_mode_from_env` with
either the `std` or the `supports-color` feature, but they were only compiled
with `std`.
---
 src/lib.rs  | 2 +-
 src/mode.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ada56f2..a501a1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@
 
 #[cfg(feature = "alloc")]
 extern crate alloc;
-#[cfg(feature = "std")]
+#[cfg(any(feature = "std", feature = "supports-color"))]
 extern crate std;
 
 #[macro_use]
diff --git a/src/mode.rs b/src/mode.rs
index bdf2b1c..d4ff1ff 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -227,8 +227,8 @@ impl Mode {
     /// * If `ALWAYS_COLOR`, `CLICOLOR_FORCE`, `FORCE_COLOR` is set to a non-zero value, [`Mode::Always`] is returned
     ///
     /// * otherwise None is returned
-    #[cfg(feature = "std")]
-    #[cfg_attr(doc, doc(cfg(feature = "std")))]
+    #[cfg(any(feature = "std", feature = "supports-color"))]
+    #[cfg_attr(doc, doc(cfg(any(feature = "std", feature = "supports-color"))))]
     pub fn from_env() -> Option<Self> {
         if std::env::var_os("NO_COLOR").is_some_and(|x| x != "0") {
             return Some(Self::Never);
@@ -287,8 +287,8 @@ pub fn set_coloring_mode(mode: Mode) {
 ///
 /// see [`Mode::from_env`] for details on which env vars are supported
 #[inline]
-#[cfg(feature = "std")]
-#[cfg_attr(doc, doc(cfg(feature = "std")))]
+#[cfg(any(feature = "std", feature = "supports-color"))]
+#[cfg_attr(doc, doc(cfg(any(feature = "std", feature = "supports-color"))))]
 pub fn set_coloring_mode_from_env() {
     if cfg!(feature = "strip-colors") {
         return;
-- 
2.43.0


From ac1b4a9ad76784a37c23a9b38b49da092f4628e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 5/6] fix: reset the underline color for the default ANSI color

`ansi::Default` selects the terminal's default color as a foreground (39) and
background (49), but as an underline color it used its index as an xterm code
and selected xterm 16, which is black.
---
 src/ansi.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ansi.rs b/src/ansi.rs
index f52af4b..bf1f2c1 100644
--- a/src/ansi.rs
+++ b/src/ansi.rs
@@ -91,7 +91,11 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI background color args
             pub const fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                match self {
+                    // there is no xterm color for the terminal's default color
+                    Self::Default => "59",
+                    _ => self.to_xterm().underline_args(),
+                }
             }
 
             #[inline]
@@ -113,7 +117,11 @@ macro_rules! MkAnsiColor {
             #[inline]
             /// The ANSI underline color escape sequence
             pub const fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                match self {
+                    // there is no xterm color for the terminal's default color
+                    Self::Default => "\x1b[59m",
+                    _ => self.to_xterm().underline_escape(),
+                }
             }
 
             #[inline]
@@ -145,7 +153,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_args(self) -> &'static str {
-                self.to_xterm().underline_args()
+                self.underline_args()
             }
 
             #[inline]
@@ -170,7 +178,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             fn underline_escape(self) -> &'static str {
-                self.to_xterm().underline_escape()
+                self.underline_escape()
             }
         }
 
@@ -217,7 +225,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_args(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ARGS
+                    Self::DYNAMIC.underline_args()
                 }
 
                 #[inline]
@@ -232,7 +240,7 @@ macro_rules! MkAnsiColor {
 
                 #[inline]
                 fn underline_escape(self) -> &'static str {
-                    <xterm_from_code!($xterm)>::UNDERLINE_ESCAPE
+                    Self::DYNAMIC.underline_escape()
                 }
             }
         )*
-- 
2.43.0


From 18b0e725194bae8a4c22375c700e906752d9d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 6/6] fix: subtract the digit offset from the last digit of
 two-digit color codes

---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0

