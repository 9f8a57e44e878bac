From e3b4188e84670e0f59132fbde3172fc3125becb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 1/5] fix: parse two digit decimal xterm codes as their decimal
 value

---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From b8f0aa0a853362ddf38830aecd64253e5b702cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 2/5] fix: Color::Rgb writes foreground args when used as a
 foreground color

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From eb1a234194955085b7e5e0b2fc454ba5e708ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 3/5] fix: subscript effect applies SGR 74 instead of
 superscript's 73

---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From ea5c61e9e14532cf61c9348a84c88c34cce37f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 4/5] fix: reject "never" followed by a space or NUL when
 parsing Mode and Stream

---
 src/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..c7b1a53 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -83,7 +83,7 @@ impl Mode {
         match data {
             DETECT_STR => Ok(Mode::Detect),
             ALWAYS_STR => Ok(Mode::Always),
-            NEVER_STR => Ok(Mode::Never),
+            NEVER_STR if s.len() == 5 => Ok(Mode::Never),
             _ => Err(ModeFromStrError),
         }
     }
@@ -149,7 +149,7 @@ impl Stream {
             STDERR_STR => Ok(Stream::Stderr),
             STDOUT_STR => Ok(Stream::Stdout),
             ALWAYS_STR => Ok(Stream::AlwaysColor),
-            NEVER_STR => Ok(Stream::NeverColor),
+            NEVER_STR if s.len() == 5 => Ok(Stream::NeverColor),
             _ => Err(StreamFromStrError),
         }
     }
-- 
2.43.0


From a38b5cc02161002454246228501c6be5a54ebc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 5/5] verification contracts and hooks, guarded by cfg(kani)
 and cfg(colorz_contracts)

---
 src/ansi.rs     |   1 +
 src/from_str.rs |  19 +++++++++
 src/lib.rs      |  11 +++++
 src/mode.rs     |  59 +++++++++++++++++++++++++
 src/rgb.rs      | 111 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/style.rs    |  40 +++++++++++++++++
 src/xterm.rs    |   1 +
 7 files changed, 242 insertions(+)

diff --git a/src/ansi.rs b/src/ansi.rs
index f52af4b..f38b30e 100644
--- a/src/ansi.rs
+++ b/src/ansi.rs
@@ -118,6 +118,7 @@ macro_rules! MkAnsiColor {
 
             #[inline]
             /// The corresponding Xterm color
+            #[cfg_attr(colorz_contracts, kani::ensures(|r| *r as u8 == self as u8))]
             pub const fn to_xterm(self) -> crate::xterm::XtermColor {
                 match self {
                     $(Self::$name => $name::DYNAMIC_XTERM,)*
diff --git a/src/from_str.rs b/src/from_str.rs
index ce39583..8592055 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -14,6 +14,10 @@ pub enum ParseColorError {
 }
 
 #[inline(always)]
+#[cfg_attr(colorz_contracts, kani::ensures(|r| match *r {
+    Ok(v) => v < 16 && (b"0123456789abcdef"[v as usize] == x || b"0123456789ABCDEF"[v as usize] == x),
+    Err(e) => e == ParseColorError::InvalidHexDigit && !x.is_ascii_hexdigit(),
+}))]
 const fn parse_hex_digit(x: u8) -> Result<u8, ParseColorError> {
     match x {
         b'0'..=b'9' => Ok(x - b'0'),
@@ -23,6 +27,8 @@ const fn parse_hex_digit(x: u8) -> Result<u8, ParseColorError> {
     }
 }
 
+#[cfg_attr(colorz_contracts, kani::requires(a < 16 && b < 16))]
+#[cfg_attr(colorz_contracts, kani::ensures(|r| *r == a * 16 + b))]
 const fn merge(a: u8, b: u8) -> u8 {
     a << 4 | b
 }
@@ -77,3 +83,16 @@ impl FromStr for Color {
         })
     }
 }
+
+/// Verification hook: access to private functions under contract
+#[cfg(all(kani, colorz_contracts))]
+#[doc(hidden)]
+pub mod __verif {
+    pub const fn parse_hex_digit(x: u8) {
+        let _ = super::parse_hex_digit(x);
+    }
+
+    pub const fn merge(a: u8, b: u8) -> u8 {
+        super::merge(a, b)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index ada56f2..6e6f39b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![doc = include_str!("../README.md")]
 #![no_std]
+#![allow(unexpected_cfgs)] // `kani` and `colorz_contracts` are set by the proof harnesses only
 #![forbid(unsafe_code, missing_docs, clippy::missing_panics_doc)]
 #![deny(
     missing_debug_implementations,
@@ -95,6 +96,16 @@ mod seal {
     pub trait Seal: Copy {}
 }
 
+/// Verification hook: lets a proof harness define ghost colors (only under `cargo kani`)
+#[cfg(kani)]
+#[doc(hidden)]
+pub mod __verif {
+    pub use crate::seal::Seal;
+
+    #[cfg(colorz_contracts)]
+    pub use crate::{from_str::__verif as from_str, style::__verif as style};
+}
+
 /// A sealed trait for describing ANSI color args. This is largely only used to
 /// implement [`WriteColor`] and to provide lower level tools to access code codes and color arguments.
 ///
diff --git a/src/mode.rs b/src/mode.rs
index c7b1a53..94f84ae 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -67,6 +67,15 @@ impl FromStr for Mode {
 impl Mode {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r == if s.eq_ignore_ascii_case(b"detect") {
+        Ok(Mode::Detect)
+    } else if s.eq_ignore_ascii_case(b"always") {
+        Ok(Mode::Always)
+    } else if s.eq_ignore_ascii_case(b"never") {
+        Ok(Mode::Never)
+    } else {
+        Err(ModeFromStrError)
+    }))]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, ModeFromStrError> {
         const DETECT_STR: u64 = u64::from_ne_bytes(*b"detect\0\0") | ASCII_CASE_MASK_SIMD;
         const ALWAYS_STR: u64 = u64::from_ne_bytes(*b"always\0\0") | ASCII_CASE_MASK_SIMD;
@@ -131,6 +140,17 @@ impl FromStr for Stream {
 impl Stream {
     /// Parse the mode from some ascii encoded bytes
     #[inline]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r == if s.eq_ignore_ascii_case(b"stdout") {
+        Ok(Stream::Stdout)
+    } else if s.eq_ignore_ascii_case(b"stderr") {
+        Ok(Stream::Stderr)
+    } else if s.eq_ignore_ascii_case(b"always") {
+        Ok(Stream::AlwaysColor)
+    } else if s.eq_ignore_ascii_case(b"never") {
+        Ok(Stream::NeverColor)
+    } else {
+        Err(StreamFromStrError)
+    }))]
     pub const fn from_ascii_bytes(s: &[u8]) -> Result<Self, StreamFromStrError> {
         const STDOUT_STR: u64 = u64::from_ne_bytes(*b"stdout\0\0") | ASCII_CASE_MASK_SIMD;
         const STDERR_STR: u64 = u64::from_ne_bytes(*b"stderr\0\0") | ASCII_CASE_MASK_SIMD;
@@ -184,6 +204,7 @@ impl ColorSupport {
     const DETECT: u8 = 0x80;
 
     #[cfg(feature = "supports-color")]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r != Self::DETECT && Self::decode(*r) == self))]
     fn encode(self) -> u8 {
         u8::from(self.ansi) | u8::from(self.xterm) << 1 | u8::from(self.rgb) << 2
     }
@@ -201,6 +222,7 @@ impl ColorSupport {
 impl Mode {
     const DETECT: u8 = Self::Detect.encode();
 
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| Mode::decode(*r) == self))]
     const fn encode(self) -> u8 {
         match self {
             Mode::Always => 0,
@@ -248,6 +270,7 @@ impl Mode {
 }
 
 impl Stream {
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r < 4 && Stream::decode(*r) == self))]
     const fn encode(self) -> u8 {
         match self {
             Stream::Stdout => 0,
@@ -257,6 +280,8 @@ impl Stream {
         }
     }
 
+    #[cfg_attr(colorz_contracts, kani::requires(x < 4))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.encode() == x))]
     const fn decode(x: u8) -> Self {
         match x {
             0 => Self::Stdout,
@@ -270,6 +295,8 @@ impl Stream {
 
 #[inline]
 /// Set the global coloring mode (this allows forcing colors on or off despite stream preferences)
+#[cfg_attr(colorz_contracts, kani::ensures(|_| cfg!(feature = "strip-colors") || get_coloring_mode() == mode))]
+#[cfg_attr(colorz_contracts, kani::modifies(COLORING_MODE.as_ptr()))]
 pub fn set_coloring_mode(mode: Mode) {
     if cfg!(feature = "strip-colors") {
         return;
@@ -303,6 +330,7 @@ pub fn set_coloring_mode_from_env() {
 ///
 /// If it is not set, this returns a value of `Mode::Detect`
 #[inline]
+#[cfg_attr(colorz_contracts, kani::ensures(|r| !cfg!(feature = "strip-colors") || *r == Mode::Never))]
 pub fn get_coloring_mode() -> Mode {
     if cfg!(feature = "strip-colors") {
         return Mode::Never;
@@ -320,6 +348,8 @@ pub fn get_coloring_mode() -> Mode {
 /// colorz::mode::set_default_stream(colorz::mode::Stream::NeverColor);
 /// ```
 #[inline]
+#[cfg_attr(colorz_contracts, kani::ensures(|_| get_default_stream() == stream))]
+#[cfg_attr(colorz_contracts, kani::modifies(DEFAULT_STREAM.as_ptr()))]
 pub fn set_default_stream(stream: Stream) {
     DEFAULT_STREAM.store(
         Stream::encode(stream),
@@ -399,6 +429,13 @@ pub fn get_default_stream() -> Stream {
 /// }
 /// ```
 #[inline]
+#[cfg_attr(colorz_contracts, kani::ensures(|r| match (get_coloring_mode(), stream.unwrap_or(get_default_stream())) {
+    (Mode::Always, _) => *r,
+    (Mode::Never, _) => !*r,
+    (Mode::Detect, Stream::AlwaysColor) => *r,
+    (Mode::Detect, Stream::NeverColor) => !*r,
+    (Mode::Detect, _) => true,
+}))]
 pub fn should_color(stream: Option<Stream>, kinds: &[ColorKind]) -> bool {
     if cfg!(feature = "strip-colors") {
         return false;
@@ -522,6 +559,28 @@ fn should_color_slow(is_stdout: bool, kinds: &[ColorKind]) -> bool {
     true
 }
 
+/// Verification hook: access to private functions under contract
+#[cfg(all(kani, colorz_contracts))]
+#[doc(hidden)]
+pub mod __verif {
+    pub const fn encode_mode(x: super::Mode) -> u8 {
+        x.encode()
+    }
+
+    pub const fn encode_stream(x: super::Stream) -> u8 {
+        x.encode()
+    }
+
+    pub const fn decode_stream(x: u8) -> super::Stream {
+        super::Stream::decode(x)
+    }
+
+    #[cfg(feature = "supports-color")]
+    pub fn encode_support(ansi: bool, xterm: bool, rgb: bool) -> u8 {
+        super::ColorSupport { ansi, xterm, rgb }.encode()
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::mode::Mode;
diff --git a/src/rgb.rs b/src/rgb.rs
index 1122eee..03cd61c 100644
--- a/src/rgb.rs
+++ b/src/rgb.rs
@@ -58,6 +58,9 @@ impl RgbBuffer {
         })
     }
 
+    #[cfg_attr(colorz_contracts, kani::requires(self.len < 19 && self.data[self.len as usize] == b';'))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|_| self.len == old(self.len) + 1))]
+    #[cfg_attr(colorz_contracts, kani::modifies(&mut self.len))]
     fn write_sep(&mut self) {
         // separators are set when RgbBuffer is initialized, so we don't need to write anything
         // and RgbBuffers are not reused, so `self.data[self.len]` must equal `;`
@@ -74,11 +77,17 @@ impl RgbBuffer {
         self.len += s.len() as u8;
     }
 
+    #[cfg_attr(colorz_contracts, kani::requires(self.len < 19))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|_| self.len == old(self.len) + 1 && self.data[old(self.len) as usize] == x))]
+    #[cfg_attr(colorz_contracts, kani::modifies(self))]
     fn write_char(&mut self, x: u8) {
         self.data[self.len as usize] = x;
         self.len += 1;
     }
 
+    #[cfg_attr(colorz_contracts, kani::requires(self.len <= 16))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|_| __verif::appended(&old(self.data), old(self.len), &self.data, self.len, x)))]
+    #[cfg_attr(colorz_contracts, kani::modifies(self))]
     fn write_u8(&mut self, x: u8) {
         // makes LLVM's peephole optimizer trigger, giving better codegen
         // this also lifts the bounds check to the top, and no other
@@ -129,6 +138,8 @@ impl RgbBuffer {
         self.write_u8(blue);
     }
 
+    #[cfg_attr(colorz_contracts, kani::requires(self.len >= 6 && self.len <= 19))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.len == self.len - 6 && __verif::is_slice_of(&r.data, r.len, &self.data, 5)))]
     const fn raw_args_payload(&self) -> RgbBuffer {
         let mut data = [0; 19];
         let mut i = 0;
@@ -142,6 +153,8 @@ impl RgbBuffer {
         }
     }
 
+    #[cfg_attr(colorz_contracts, kani::requires(self.len >= 3 && self.len <= 19))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.len == self.len - 3 && __verif::is_slice_of(&r.data, r.len, &self.data, 2)))]
     const fn args_payload(&self) -> RgbBuffer {
         let mut data = [0; 19];
         let mut i = 0;
@@ -215,6 +228,8 @@ impl WriteColor for RgbColor {
     }
 }
 
+#[cfg_attr(colorz_contracts, kani::requires(first >= b'3' && first <= b'5'))]
+#[cfg_attr(colorz_contracts, kani::ensures(|out| __verif::is_escape(&out.data, out.len, first, [r, g, b])))]
 const fn const_rgb_buffer(first: u8, r: u8, g: u8, b: u8) -> RgbBuffer {
     let mut len = 7;
     let mut data = *b"\x1b[x8;2;rrr;ggg;bbbm";
@@ -277,6 +292,102 @@ const fn const_rgb_buffer(first: u8, r: u8, g: u8, b: u8) -> RgbBuffer {
     }
 }
 
+/// Verification hook: contract predicates and access to the buffer writers
+#[cfg(all(kani, colorz_contracts))]
+#[doc(hidden)]
+pub mod __verif {
+    use super::RgbBuffer;
+
+    fn digits(x: u8) -> u8 {
+        1 + (x >= 10) as u8 + (x >= 100) as u8
+    }
+
+    /// `data[at..]` starts with `x` in decimal, without leading zeros
+    fn spells(data: &[u8; 19], at: u8, x: u8) -> bool {
+        let n = digits(x);
+        if at > 19 - n {
+            return false;
+        }
+        let (mut i, mut v, mut ok) = (0, 0u16, true);
+        while i < 3 {
+            if i < n {
+                let c = data[(at + i) as usize];
+                ok &= c.is_ascii_digit();
+                v = v * 10 + (c & 15) as u16;
+            }
+            i += 1;
+        }
+        ok && v == x as u16
+    }
+
+    pub(super) fn appended(old: &[u8; 19], old_len: u8, new: &[u8; 19], len: u8, x: u8) -> bool {
+        let (mut i, mut same) = (0, true);
+        while i < 19 {
+            same &= (i >= old_len && i < len) || new[i as usize] == old[i as usize];
+            i += 1;
+        }
+        len == old_len + digits(x) && spells(new, old_len, x) && same
+    }
+
+    pub(super) fn is_slice_of(part: &[u8; 19], len: u8, all: &[u8; 19], at: u8) -> bool {
+        let (mut i, mut same) = (0, at + len <= 19);
+        while i < 19 {
+            same &= !same || i >= len || part[i as usize] == all[(at + i) as usize];
+            i += 1;
+        }
+        same
+    }
+
+    /// `data[..len]` is `ESC [ <first> 8;2; r ; g ; b m`
+    pub(super) fn is_escape(data: &[u8; 19], len: u8, first: u8, [r, g, b]: [u8; 3]) -> bool {
+        let (g_at, b_at) = (8 + digits(r), 9 + digits(r) + digits(g));
+        let end = b_at + digits(b);
+        data[..2] == *b"\x1b["
+            && data[2] == first
+            && data[3..7] == *b"8;2;"
+            && spells(data, 7, r)
+            && data[g_at as usize - 1] == b';'
+            && spells(data, g_at, g)
+            && data[b_at as usize - 1] == b';'
+            && spells(data, b_at, b)
+            && data[end as usize] == b'm'
+            && len == end + 1
+    }
+
+    pub fn write_u8(data: [u8; 19], len: u8, x: u8) {
+        RgbBuffer { data, len }.write_u8(x)
+    }
+
+    pub fn write_char(data: [u8; 19], len: u8, x: u8) {
+        RgbBuffer { data, len }.write_char(x)
+    }
+
+    pub fn write_sep(data: [u8; 19], len: u8) {
+        RgbBuffer { data, len }.write_sep()
+    }
+
+    pub fn args_payload(data: [u8; 19], len: u8) {
+        RgbBuffer { data, len }.args_payload();
+    }
+
+    pub fn raw_args_payload(data: [u8; 19], len: u8) {
+        RgbBuffer { data, len }.raw_args_payload();
+    }
+
+    /// What every compile time color type is generated from, as a function of run time values:
+    /// the escape sequence, the layer arguments and the bare arguments
+    pub fn comptime(first: u8, r: u8, g: u8, b: u8) -> [([u8; 19], u8); 3] {
+        let escape = super::const_rgb_buffer(first, r, g, b);
+        let args = escape.args_payload();
+        let raw = escape.raw_args_payload();
+        [
+            (escape.data, escape.len),
+            (args.data, args.len),
+            (raw.data, raw.len),
+        ]
+    }
+}
+
 /// A compile time Rgb color type
 ///
 /// You can convert this type to [`Rgb`] via [`From`] or [`Self::DYNAMIC`]
diff --git a/src/style.rs b/src/style.rs
index 9536dd4..ac69775 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -91,6 +91,8 @@ macro_rules! Effect {
         const ALL_EFFECTS: EffectFlags = EffectFlags::new() $(.with(Effect::$name))*;
 
         impl Effect {
+            #[cfg_attr(colorz_contracts, kani::requires(x <= Effect::SubScript as u8))]
+            #[cfg_attr(colorz_contracts, kani::ensures(|r| *r as u8 == x))]
             fn decode(x: u8) -> Self {
                 #[cold]
                 #[inline(never)]
@@ -136,6 +138,7 @@ macro_rules! Effect {
                 }
             }
 
+            #[cfg_attr(colorz_contracts, kani::ensures(|r| r.count_ones() == 1 && r.trailing_zeros() == self as u32))]
             const fn mask(self) -> u16 {
                 1 << self as u8
             }
@@ -180,11 +183,13 @@ impl EffectFlags {
 
     /// Are there no effects
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r == (self.data.count_ones() == 0)))]
     pub const fn is_plain(self) -> bool {
         self.data == 0
     }
 
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r == (self.data.count_ones() <= 1)))]
     const fn at_most_one_effect(self) -> bool {
         // self.data == 0 || self.data.is_power_of_two()
         self.data & self.data.wrapping_sub(1) == 0
@@ -192,12 +197,14 @@ impl EffectFlags {
 
     /// Is this effect in the collection
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r == (self.data >> opt as u8 & 1 == 1)))]
     pub const fn is(self, opt: Effect) -> bool {
         self.data & opt.mask() != 0
     }
 
     /// Do these two collections intersect
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| *r == ((self.data & opt.data).count_ones() > 0)))]
     pub const fn is_any(self, opt: EffectFlags) -> bool {
         self.data & opt.data != 0
     }
@@ -205,6 +212,7 @@ impl EffectFlags {
     /// Add an effect to the set
     #[must_use = "EffectFlags::with returns a new instance without modifying the original"]
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.data == self.data & !(1 << opt as u8) | 1 << opt as u8))]
     pub const fn with(self, opt: Effect) -> Self {
         Self {
             data: self.data | opt.mask(),
@@ -214,6 +222,7 @@ impl EffectFlags {
     /// Remove an effect from the set
     #[must_use = "EffectFlags::without returns a new instance without modifying the original"]
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.data == self.data & !(1 << opt as u8)))]
     pub const fn without(self, opt: Effect) -> Self {
         Self {
             data: self.data & !opt.mask(),
@@ -223,6 +232,7 @@ impl EffectFlags {
     /// Toggle an effect in the set
     #[must_use = "EffectFlags::toggled returns a new instance without modifying the original"]
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.is(opt) != self.is(opt) && (r.data | 1 << opt as u8) == (self.data | 1 << opt as u8)))]
     pub const fn toggled(self, opt: Effect) -> Self {
         Self {
             data: self.data ^ opt.mask(),
@@ -231,24 +241,31 @@ impl EffectFlags {
 
     /// Add an effect to the set in place
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|_| self.data == old(self.data) | 1 << opt as u8))]
+    #[cfg_attr(colorz_contracts, kani::modifies(self))]
     pub fn set(&mut self, opt: Effect) {
         *self = self.with(opt)
     }
 
     /// Remove an effect from the set in place
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|_| self.data == old(self.data) & !(1 << opt as u8)))]
+    #[cfg_attr(colorz_contracts, kani::modifies(self))]
     pub fn unset(&mut self, opt: Effect) {
         *self = self.without(opt)
     }
 
     /// Toggle an effect in the set in place
     #[inline(always)]
+    #[cfg_attr(colorz_contracts, kani::ensures(|_| self.data == old(self.data) ^ 1 << opt as u8))]
+    #[cfg_attr(colorz_contracts, kani::modifies(self))]
     pub fn toggle(&mut self, opt: Effect) {
         *self = self.toggled(opt)
     }
 
     /// Iterate over all effects
     #[inline]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| r.data == self.data))]
     pub const fn iter(self) -> EffectFlagsIter {
         EffectFlagsIter { data: self.data }
     }
@@ -885,6 +902,12 @@ impl Iterator for EffectFlagsIter {
     type Item = Effect;
 
     #[inline]
+    #[cfg_attr(colorz_contracts, kani::requires(self.data <= EffectFlags::all().data))]
+    #[cfg_attr(colorz_contracts, kani::ensures(|r| match *r {
+        None => old(self.data) == 0 && self.data == 0,
+        Some(e) => old(self.data.trailing_zeros()) == e as u32 && self.data == old(self.data) & !(1 << e as u8),
+    }))]
+    #[cfg_attr(colorz_contracts, kani::modifies(self))]
     fn next(&mut self) -> Option<Self::Item> {
         let data = NonZeroU16::new(self.data)?;
         let zeros = data.trailing_zeros();
@@ -892,3 +915,20 @@ impl Iterator for EffectFlagsIter {
         Some(Effect::decode(zeros as u8))
     }
 }
+
+/// Verification hook: access to private functions under contract
+#[cfg(all(kani, colorz_contracts))]
+#[doc(hidden)]
+pub mod __verif {
+    pub fn decode(x: u8) -> super::Effect {
+        super::Effect::decode(x)
+    }
+
+    pub const fn mask(e: super::Effect) -> u16 {
+        e.mask()
+    }
+
+    pub const fn at_most_one_effect(e: super::EffectFlags) -> bool {
+        e.at_most_one_effect()
+    }
+}
diff --git a/src/xterm.rs b/src/xterm.rs
index bfc2f1b..1d9af55 100644
--- a/src/xterm.rs
+++ b/src/xterm.rs
@@ -99,6 +99,7 @@ macro_rules! XTerm {
         impl XtermColor {
             /// Get a Xterm color via it's color args
             #[inline]
+            #[cfg_attr(colorz_contracts, kani::ensures(|r| *r as u8 == args))]
             pub const fn from_code(args: u8) -> Self {
                 match args {
                     $($args => Self::$name,)*
-- 
2.43.0

