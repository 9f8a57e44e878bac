//! Ghost state, ghost colours and symbolic generators shared by the harnesses.
use colorz::mode::{ColorKind, Mode, Stream};
use colorz::{Effect, EffectFlags, NoColor, OptionalColor, Style, WriteColor};
use core::fmt::{self, Formatter, FormattingOptions, Write};

pub const ALL: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];
/// standard SGR codes (ECMA-48 and its usual extensions) turning each effect on / off
pub const SET: [u8; 13] = [1, 2, 3, 4, 21, 5, 6, 7, 8, 9, 53, 73, 74];
pub const CLR: [u8; 13] = [22, 22, 23, 24, 24, 25, 25, 27, 28, 29, 55, 75, 75];
pub const ANY_UNDERLINE: u16 = 1 << 3 | 1 << 4;

/// any effect
pub fn any_effect() -> Effect {
    ALL[any_index(13)]
}

pub fn any_index(n: usize) -> usize {
    let i: u8 = kani::any();
    kani::assume((i as usize) < n);
    i as usize
}

/// the effect set with the members given by the bits of `m`
pub fn flags(m: u16) -> EffectFlags {
    let mut f = EffectFlags::new();
    let mut i = 0;
    while i < 13 {
        if m >> i & 1 == 1 {
            f = f.with(ALL[i]);
        }
        i += 1;
    }
    f
}

/// any set of effects, as a bit mask
pub fn any_mask() -> u16 {
    let m: u16 = kani::any();
    kani::assume(m < 1 << 13);
    m
}

/// A ghost colour: it stands for every `WriteColor` implementation, writing one opaque letter
/// where a real colour writes its parameters. Harnesses in c05/c07 prove that the real colours
/// satisfy the contract it assumes: `fmt_x` writes `ESC [ args m`, `fmt_x_args` writes `args`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct G(pub u8);
pub const COLORS: u8 = 4;
impl colorz::__verif::Seal for G {}
const FGA: [&str; 4] = ["A", "B", "C", "D"];
const FGE: [&str; 4] = ["\x1b[Am", "\x1b[Bm", "\x1b[Cm", "\x1b[Dm"];
const BGA: [&str; 4] = ["E", "F", "G", "H"];
const BGE: [&str; 4] = ["\x1b[Em", "\x1b[Fm", "\x1b[Gm", "\x1b[Hm"];
const ULA: [&str; 4] = ["I", "J", "K", "L"];
const ULE: [&str; 4] = ["\x1b[Im", "\x1b[Jm", "\x1b[Km", "\x1b[Lm"];
impl WriteColor for G {
    fn color_kind(self) -> ColorKind {
        match self.0 {
            0 => ColorKind::Ansi,
            1 => ColorKind::Xterm,
            2 => ColorKind::Rgb,
            _ => ColorKind::NoColor,
        }
    }
    fn fmt_foreground_args(self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(FGA[self.0 as usize])
    }
    fn fmt_background_args(self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(BGA[self.0 as usize])
    }
    fn fmt_underline_args(self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(ULA[self.0 as usize])
    }
    fn fmt_foreground(self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(FGE[self.0 as usize])
    }
    fn fmt_background(self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(BGE[self.0 as usize])
    }
    fn fmt_underline(self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(ULE[self.0 as usize])
    }
}

pub fn any_g() -> G {
    let i: u8 = kani::any();
    kani::assume(i < COLORS);
    G(i)
}

/// How a layer's colour is typed: `Kind::AlwaysSome`, `MaybeSome`, `NeverSome` in the crate
pub trait Layer: OptionalColor + Copy {
    fn any() -> Self;
    fn id(self) -> Option<u8>;
}
impl Layer for G {
    fn any() -> Self {
        any_g()
    }
    fn id(self) -> Option<u8> {
        Some(self.0)
    }
}
impl Layer for NoColor {
    fn any() -> Self {
        NoColor
    }
    fn id(self) -> Option<u8> {
        None
    }
}
impl<L: Layer> Layer for Option<L> {
    fn any() -> Self {
        if kani::any() {
            Some(L::any())
        } else {
            None
        }
    }
    fn id(self) -> Option<u8> {
        self.and_then(L::id)
    }
}

/// any style over the given layer types, with its abstract view
#[derive(Clone, Copy)]
pub struct View {
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    pub ul: Option<u8>,
    pub m: u16,
}
pub fn any_style<F: Layer, B: Layer, U: Layer>() -> (Style<F, B, U>, View) {
    let (fg, bg, ul, m) = (F::any(), B::any(), U::any(), any_mask());
    (
        Style::new()
            .fg(fg)
            .bg(bg)
            .underline_color(ul)
            .effect_flags(flags(m)),
        View {
            fg: fg.id(),
            bg: bg.id(),
            ul: ul.id(),
            m,
        },
    )
}
impl View {
    /// value of attribute `k` after applying the style in a state where it is `v`
    pub fn applied(self, k: u8, v: u8) -> u8 {
        match k {
            0 => self.fg.map_or(v, |g| g + 1),
            1 => self.bg.map_or(v, |g| g + 1),
            2 if self.underlined() => self.ul.map_or(v, |g| g + 1),
            2 => v,
            _ if self.m >> (k - 3) & 1 == 1 => 1,
            _ => v,
        }
    }
    /// does clearing the style return attribute `k` to default (else it leaves it alone)?
    pub fn clears(self, k: u8) -> bool {
        match k {
            0 => self.fg.is_some(),
            1 => self.bg.is_some(),
            2 => self.underlined() && self.ul.is_some(),
            _ => self.m & off_group(k - 3) != 0,
        }
    }
    pub fn underlined(self) -> bool {
        self.m & ANY_UNDERLINE != 0
    }
    pub fn plain(self) -> bool {
        self.m == 0 && self.fg.is_none() && self.bg.is_none()
    }
}

/// effects that share the off-code of effect `e`
pub fn off_group(e: u8) -> u16 {
    match e {
        0 | 1 => 0b11,
        3 | 4 => 0b11 << 3,
        5 | 6 => 0b11 << 5,
        11 | 12 => 0b11 << 11,
        _ => 1 << e,
    }
}

/// A terminal that interprets SGR sequences, observed through one arbitrary attribute `k`:
/// 0 foreground, 1 background, 2 underline colour, 3.. effects. (As `k` is symbolic, a statement
/// about attribute `k` is a statement about all of them.)
pub struct Term {
    pub k: u8,
    set: u8,
    clr: u8,
    /// value of attribute k: 0 default, 1+id of a ghost colour, or 1 for an effect that is on
    pub v: u8,
    st: u8,
    acc: u8,
    has: bool,
    ghost: u8,
    /// something that is not a well formed SGR sequence with known parameters was written
    pub bad: bool,
    pub bytes: u32,
}
/// longest chunk a single write may have (a longer one makes the proof inconclusive, not failed)
pub const CHUNK: usize = if cfg!(colorz_wide) { 64 } else { 8 };

impl Term {
    pub fn new(k: u8, v: u8) -> Self {
        let (set, clr) = match k {
            0 => (255, 39),
            1 => (255, 49),
            2 => (255, 59),
            _ => (SET[k as usize - 3], CLR[k as usize - 3]),
        };
        Term { k, set, clr, v, st: 0, acc: 0, has: false, ghost: 0, bad: false, bytes: 0 }
    }
    fn param(&mut self) {
        if self.ghost != 0 {
            if self.ghost >> 2 == self.k + 1 {
                self.v = 1 + (self.ghost & 3)
            }
        } else {
            let n = self.acc; // an empty parameter is 0
            let known = match n {
                0..=9 | 21..=25 | 27..=29 | 39 | 49 | 53 | 55 | 59 | 73..=75 => true,
                _ => false,
            };
            if !known {
                self.bad = true
            }
            if n == self.set {
                self.v = 1
            } else if n == self.clr || n == 0 {
                self.v = 0
            }
        }
        self.acc = 0;
        self.has = false;
        self.ghost = 0;
    }
    pub fn byte(&mut self, b: u8) {
        match self.st {
            0 => {
                if b == 0x1b {
                    self.st = 1
                } else {
                    self.bad = true
                }
            }
            1 => {
                if b == b'[' {
                    self.st = 2
                } else {
                    self.bad = true
                }
            }
            _ => {
                if b == b';' || b == b'm' {
                    self.param();
                    if b == b'm' {
                        self.st = 0
                    }
                } else if b >= b'A' {
                    if self.ghost != 0 || self.has || b > b'L' {
                        self.bad = true
                    }
                    self.ghost = b - b'A' + 4
                } else {
                    if self.acc >= 25 || self.ghost != 0 || b < b'0' || b > b'9' {
                        self.bad = true
                    }
                    self.acc = self.acc.wrapping_mul(10).wrapping_add(b & 15);
                    self.has = true;
                }
            }
        }
    }
    pub fn well_formed(&self) -> bool {
        !self.bad && self.st == 0
    }
}
impl Write for Term {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        assert!(s.len() <= CHUNK, "LIMIT: write longer than CHUNK");
        let mut i = 0;
        while i < CHUNK {
            if i < s.len() {
                self.byte(s[i]);
            }
            i += 1;
        }
        self.bytes += s.len() as u32;
        Ok(())
    }
}

/// runs `f` with any formatting options
pub fn with<S: Write>(s: &mut S, f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> fmt::Result {
    f(&mut Formatter::new(s, any_options()))
}
/// ... without options
pub fn plainly<S: Write>(s: &mut S, f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> fmt::Result {
    f(&mut Formatter::new(s, FormattingOptions::new()))
}
pub fn any_options() -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.sign(match kani::any::<u8>() {
        0 => Some(fmt::Sign::Plus),
        1 => Some(fmt::Sign::Minus),
        _ => None,
    });
    o.sign_aware_zero_pad(kani::any());
    o.alternate(kani::any());
    o.fill(kani::any());
    o.align(match kani::any::<u8>() {
        0 => Some(fmt::Alignment::Left),
        1 => Some(fmt::Alignment::Right),
        2 => Some(fmt::Alignment::Center),
        _ => None,
    });
    o.width(kani::any());
    o.precision(kani::any());
    o.debug_as_hex(match kani::any::<u8>() {
        0 => Some(fmt::DebugAsHex::Lower),
        1 => Some(fmt::DebugAsHex::Upper),
        _ => None,
    });
    o
}

pub fn any_attr() -> (u8, u8) {
    let k: u8 = kani::any();
    kani::assume(k < 16);
    (k, kani::any())
}

/// Declares proof harnesses with the unwinding bound of the build. Unwinding assertions are on,
/// so a bound that does not cover every loop makes the proof fail instead of cutting it short.
macro_rules! proof {
    (unwind $u:literal: $($(#[$m:meta])* fn $n:ident() $b:block)*) => { $(
        #[kani::proof]
        #[cfg_attr(not(colorz_wide), kani::unwind($u))]
        #[cfg_attr(colorz_wide, kani::unwind(70))]
        $(#[$m])*
        pub fn $n() $b
    )* };
    ($($t:tt)*) => { proof! { unwind 18: $($t)* } };
}

pub type O = Option<G>;
pub type A = G;
pub type N = NoColor;
/// one proof per combination of layer types: o = Option<G>, a = G, n = NoColor
macro_rules! combos {
    ($f:ident: $($n:ident $fg:ty, $bg:ty, $ul:ty;)*) => { proof! { $( fn $n() { $f::<$fg, $bg, $ul>() } )* } };
    ($f:ident in world: $($n:ident $fg:ty, $bg:ty, $ul:ty;)*) => { world! { $( fn $n() { $f::<$fg, $bg, $ul>() } )* } };
}

/// Observes the output through one arbitrary byte position: its length and the byte at `p`.
/// (As `p` is symbolic, equality at `p` and of the lengths is equality of the texts.)
/// `At` reads every byte written, which is cheap for many short writes; `Pick` reads only the byte
/// at `p`, which is cheap for few long ones.
#[derive(Clone, Copy)]
pub struct Observe<const EACH: bool> {
    pub p: u8,
    pub b: u8,
    pub len: u8,
}
pub type At = Observe<true>;
pub type Pick = Observe<false>;
impl<const EACH: bool> Observe<EACH> {
    pub fn new(p: u8) -> Self {
        Observe { p, b: 0, len: 0 }
    }
    pub fn text(p: u8, s: &str) -> Self {
        *Self::new(p).str(s)
    }
    pub fn push(&mut self, b: u8) {
        if self.len == self.p {
            self.b = b
        }
        self.len += 1;
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        let _ = self.write_str(s);
        self
    }
    /// `x` in decimal
    pub fn dec(&mut self, x: u8) -> &mut Self {
        if x >= 100 {
            self.push(b'0' + x / 100)
        }
        if x >= 10 {
            self.push(b'0' + x / 10 % 10)
        }
        self.push(b'0' + x % 10);
        self
    }
    pub fn same<const E: bool>(&self, other: &Observe<E>) -> bool {
        self.len == other.len && self.b == other.b
    }
}
impl<const EACH: bool> Write for Observe<EACH> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        if EACH {
            assert!(s.len() <= CHUNK && self.len as usize + CHUNK < 256, "LIMIT: output longer than the proof covers");
            let mut i = 0;
            while i < CHUNK {
                if i < s.len() {
                    self.push(s[i]);
                }
                i += 1;
            }
        } else {
            assert!(s.len() + (self.len as usize) < 256, "LIMIT: output longer than the proof covers");
            if self.p >= self.len && ((self.p - self.len) as usize) < s.len() {
                self.b = s[(self.p - self.len) as usize]
            }
            self.len += s.len() as u8;
        }
        Ok(())
    }
}

/// Observes only how many bytes were written.
#[derive(Clone, Copy)]
pub struct Count(pub usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
/// how many bytes a formatting function writes
pub fn length(f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> usize {
    let mut c = Count(0);
    let _ = with(&mut c, f);
    c.0
}

/// A destination that fails at the write number `left` (and must not be written to afterwards)
pub struct Failing<S> {
    pub to: S,
    pub left: u8,
    pub failed: bool,
    pub after: bool,
}
impl<S> Failing<S> {
    pub fn new(to: S, left: u8) -> Self {
        Failing { to, left, failed: false, after: false }
    }
}
impl<S: Write> Write for Failing<S> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
            return Err(fmt::Error);
        }
        if self.left == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.to.write_str(s)
    }
}

pub fn any_mode() -> Mode {
    match kani::any::<u8>() {
        0 => Mode::Always,
        1 => Mode::Never,
        _ => Mode::Detect,
    }
}
pub fn any_stream() -> Stream {
    match kani::any::<u8>() {
        0 => Stream::Stdout,
        1 => Stream::Stderr,
        2 => Stream::AlwaysColor,
        _ => Stream::NeverColor,
    }
}
pub fn any_stream_opt() -> Option<Stream> {
    if kani::any() {
        Some(any_stream())
    } else {
        None
    }
}
/// `AlwaysColor` / `NeverColor`: streams decided without asking the operating system
pub fn any_fixed_stream() -> Stream {
    if kani::any() {
        Stream::AlwaysColor
    } else {
        Stream::NeverColor
    }
}
pub fn any_kind() -> ColorKind {
    match kani::any::<u8>() {
        0 => ColorKind::Ansi,
        1 => ColorKind::Xterm,
        2 => ColorKind::Rgb,
        _ => ColorKind::NoColor,
    }
}

/// Stand-in for `core::str::from_utf8`'s validation loop: accepts only ASCII (all the crate ever
/// feeds it); on ASCII it agrees with the real function, on anything else the proof fails.
pub fn ascii(v: &[u8]) -> Result<(), core::str::Utf8Error> {
    let mut i = 0;
    while i < 24 {
        if i < v.len() {
            assert!(v[i] < 0x80, "text handed to from_utf8 is ASCII");
        }
        i += 1;
    }
    assert!(v.len() <= 24, "LIMIT: from_utf8 on more than 24 bytes");
    Ok(())
}
