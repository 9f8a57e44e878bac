//! C08: parsing a colour accepts exactly the documented language.
use crate::c05::{ANSI, XTERM};
use crate::common::*;
use colorz::rgb::RgbColor;
use colorz::{Color, ParseColorError};

/// Any bytes of any length. (Wide builds, used when the code loops over the whole input: of at most
/// MAX bytes.)
pub fn any_bytes() -> &'static [u8] {
    let len: usize = kani::any();
    kani::assume(len <= if cfg!(colorz_wide) { MAX } else { 1 << 40 });
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len + MAX, 1));
        // the leading bytes are chosen explicitly, so that they are part of a counterexample
        *(p as *mut [u8; MAX]) = kani::any();
        core::slice::from_raw_parts(p, len)
    }
}
/// Any string of any length. (Longer than MAX bytes it may also be invalid UTF-8: the language is
/// decided on a superset of the strings.)
pub fn any_str() -> &'static str {
    let s = any_bytes();
    kani::assume(s.len() > MAX || utf8::<MAX>(s));
    unsafe { core::str::from_utf8_unchecked(s) }
}
const MAX: usize = 20;
/// is this valid UTF-8? (for at most N bytes)
pub fn utf8<const N: usize>(s: &[u8]) -> bool {
    // continuation bytes that are due, and the range of the next one
    let (mut due, mut low, mut high) = (0u8, 0x80u8, 0xbfu8);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        if i < s.len() {
            let b = s[i];
            if due > 0 {
                ok = ok && low <= b && b <= high;
                due -= 1;
                (low, high) = (0x80, 0xbf);
            } else if b >= 0x80 {
                due = if b < 0xe0 { 1 } else if b < 0xf0 { 2 } else { 3 };
                ok = ok && b >= 0xc2 && b <= 0xf4;
                low = if b == 0xe0 { 0xa0 } else if b == 0xf0 { 0x90 } else { 0x80 };
                high = if b == 0xed { 0x9f } else if b == 0xf4 { 0x8f } else { 0xbf };
            }
        }
        i += 1;
    }
    ok && due == 0
}
fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
fn digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
const NAMES: [&[u8]; 8] = [b"black", b"red", b"green", b"yellow", b"blue", b"magenta", b"cyan", b"white"];
fn is(s: &[u8], from: usize, want: &[u8]) -> bool {
    if s.len() != from + want.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < want.len() {
        ok &= s[from + i] == want[i];
        i += 1;
    }
    ok
}
/// the number of the ANSI colour that `s` names
fn name(s: &[u8]) -> Option<usize> {
    let bright = b"bright ";
    let mut found = None;
    let is_bright = s.len() >= 7 && is(&s[..7], 0, bright);
    let mut i = 0;
    while i < 8 {
        if is(s, 0, NAMES[i]) {
            found = Some(i);
        }
        if is_bright && is(s, 7, NAMES[i]) {
            found = Some(8 + i);
        }
        i += 1;
    }
    if is(s, 0, b"purple") {
        found = Some(5);
    }
    found
}
/// the documented language
fn spec(s: &[u8]) -> Result<Color, ParseColorError> {
    use ParseColorError::*;
    let n = s.len();
    if n > 0 && s[0] == b'#' && (n == 2 || n == 3 || n == 7) {
        let mut v = [0u8; 6];
        let mut i = 0;
        while i < n - 1 {
            match hex(s[i + 1]) {
                Some(d) => v[i] = d,
                None => return Err(InvalidHexDigit),
            }
            i += 1;
        }
        return Ok(match n {
            2 => Color::Xterm(XTERM[v[0] as usize]),
            3 => Color::Xterm(XTERM[16 * v[0] as usize + v[1] as usize]),
            _ => Color::Rgb(RgbColor { red: 16 * v[0] + v[1], green: 16 * v[2] + v[3], blue: 16 * v[4] + v[5] }),
        });
    }
    if n >= 1 && n <= 3 && digit(s[0]) && (n < 2 || digit(s[1])) && (n < 3 || digit(s[2])) {
        let mut v = 0u16;
        let mut i = 0;
        while i < n {
            v = 10 * v + (s[i] - b'0') as u16;
            i += 1;
        }
        return if v <= 255 { Ok(Color::Xterm(XTERM[v as usize])) } else { Err(U8Overflow) };
    }
    match name(s) {
        Some(i) => Ok(Color::Ansi(ANSI[i].0)),
        None => Err(UnknownColor),
    }
}
fn same(a: Result<Color, ParseColorError>, b: Result<Color, ParseColorError>) -> bool {
    match (a, b) {
        (Ok(Color::Ansi(a)), Ok(Color::Ansi(b))) => a as u8 == b as u8,
        (Ok(Color::Xterm(a)), Ok(Color::Xterm(b))) => a as u8 == b as u8,
        (Ok(Color::Rgb(a)), Ok(Color::Rgb(b))) => a.red == b.red && a.green == b.green && a.blue == b.blue,
        (Err(a), Err(b)) => a as u8 == b as u8,
        _ => false,
    }
}
proof! { unwind 22:
    /// {any string of any length} parse {the documented result}
    fn language() {
        let string = any_str();
        let s = string.as_bytes();
        let got = string.parse::<Color>();
        kani::cover!(s.len() > 10 && s[3] >= 0x80);
        kani::cover!(s.len() == 7 && got.is_ok());
        kani::cover!(s.len() == 14 && got.is_ok());
        let want = spec(s);
        assert!(same(got, want), "parsing gives what the documented language says");
    }
}
