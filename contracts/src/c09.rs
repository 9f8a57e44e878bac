//! C09: mode and stream names parse exactly, ignoring only ASCII case.
use crate::c08::{any_bytes, any_str};
use crate::common::*;
use colorz::mode::{Mode, Stream};

fn is(s: &[u8], name: &[u8]) -> bool {
    let mut ok = s.len() == name.len();
    let mut i = 0;
    while i < name.len() {
        ok = ok && (s[i] == name[i] || s[i] == name[i] - (b'a' - b'A'));
        i += 1;
    }
    ok
}
fn mode(s: &[u8]) -> Option<Mode> {
    if is(s, b"detect") {
        Some(Mode::Detect)
    } else if is(s, b"always") {
        Some(Mode::Always)
    } else if is(s, b"never") {
        Some(Mode::Never)
    } else {
        None
    }
}
fn stream(s: &[u8]) -> Option<Stream> {
    if is(s, b"stdout") {
        Some(Stream::Stdout)
    } else if is(s, b"stderr") {
        Some(Stream::Stderr)
    } else if is(s, b"always") {
        Some(Stream::AlwaysColor)
    } else if is(s, b"never") {
        Some(Stream::NeverColor)
    } else {
        None
    }
}
/// the parsed mode, as a number (so that nothing depends on the crate's own comparison)
fn number(m: Option<Mode>) -> u8 {
    match m {
        None => 0,
        Some(Mode::Detect) => 1,
        Some(Mode::Always) => 2,
        Some(Mode::Never) => 3,
        Some(_) => 4,
    }
}
fn stream_number(m: Option<Stream>) -> u8 {
    match m {
        None => 0,
        Some(Stream::Stdout) => 1,
        Some(Stream::Stderr) => 2,
        Some(Stream::AlwaysColor) => 3,
        Some(Stream::NeverColor) => 4,
        Some(_) => 5,
    }
}
proof! { unwind 22:
    fn modes() {
        let s = any_bytes();
        let got = Mode::from_ascii_bytes(s).ok();
        kani::cover!(got == Some(Mode::Never));
        kani::cover!(s.len() > 15);
        assert!(number(got) == number(mode(s)), "exactly the documented names parse");
    }
    fn mode_strings() {
        let s = any_str();
        let got = s.parse::<Mode>().ok();
        assert!(number(got) == number(mode(s.as_bytes())), "exactly the documented names parse");
    }
    fn streams() {
        let s = any_bytes();
        let got = Stream::from_ascii_bytes(s).ok();
        kani::cover!(got == Some(Stream::NeverColor));
        assert!(stream_number(got) == stream_number(stream(s)), "exactly the documented names parse");
    }
    fn stream_strings() {
        let s = any_str();
        let got = s.parse::<Stream>().ok();
        assert!(stream_number(got) == stream_number(stream(s.as_bytes())), "exactly the documented names parse");
    }
}
