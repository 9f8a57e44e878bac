//! C02: the colouring decision follows the documented precedence in every case.
use crate::common::*;
use crate::world::W;
use colorz::mode::*;
use colorz::Style;

/// any capabilities of the two standard streams
pub fn any_world() {
    let (tty, level): ([bool; 2], [u8; 2]) = (kani::any(), kani::any());
    kani::assume(level[0] < 4 && level[1] < 4);
    unsafe {
        W.tty = tty;
        W.level = level;
    }
}
/// does standard stream `i` support these colour kinds, as the world is now?
pub fn supports(i: usize, kinds: &[ColorKind]) -> bool {
    capability(i).supports(kinds)
}
/// what detection finds out about a stream
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Capability {
    tty: bool,
    level: u8,
}
pub fn capability(i: usize) -> Capability {
    unsafe { Capability { tty: W.tty[i], level: W.level[i] } }
}
impl Capability {
    pub fn supports(self, kinds: &[ColorKind]) -> bool {
        if cfg!(feature = "scn") {
            let mut ok = true;
            let mut i = 0;
            while i < kinds.len() {
                ok &= match kinds[i] {
                    ColorKind::Ansi => self.level >= 1,
                    ColorKind::Xterm => self.level >= 2,
                    ColorKind::Rgb => self.level >= 3,
                    _ => true,
                };
                i += 1;
            }
            ok
        } else if cfg!(feature = "std") {
            self.tty
        } else {
            true
        }
    }
}
/// the documented precedence list; `stdout` and `stderr` are the answers of detection
pub fn spec(mode: Mode, default: Stream, stream: Option<Stream>, stdout: bool, stderr: bool) -> bool {
    if cfg!(feature = "strip") {
        return false;
    }
    match mode {
        Mode::Always => true,
        Mode::Never => false,
        Mode::Detect => match stream.unwrap_or(default) {
            Stream::AlwaysColor => true,
            Stream::NeverColor => false,
            Stream::Stdout => stdout,
            _ => stderr,
        },
    }
}
/// Colour kinds a decision is asked for. Every loop over them in the code is unwound, so this
/// bounds their number; it does not bound what a style can ask for (always three).
const KINDS: usize = 4;

fn any_settings() -> (Mode, Stream) {
    let (mode, default) = (any_mode(), any_stream());
    set_coloring_mode(mode);
    set_default_stream(default);
    (mode, default)
}
fn settings_are(mode: Mode, default: Stream) -> bool {
    get_default_stream() == default && get_coloring_mode() == if cfg!(feature = "strip") { Mode::Never } else { mode }
}
/// any state of the crate: undetected, or with either stream already detected
fn any_detected() {
    if kani::any() {
        let _ = should_color(Some(any_stream()), &[any_kind()]);
    }
}
/// the kind a ghost layer asks for
pub fn kind(g: O) -> ColorKind {
    match g {
        Some(G(0)) => ColorKind::Ansi,
        Some(G(1)) => ColorKind::Xterm,
        Some(G(2)) => ColorKind::Rgb,
        _ => ColorKind::NoColor,
    }
}

world! {
    /// {any settings, capabilities, detection state, stream, kinds} should_color {the first applicable rule}
    fn decision() {
        any_world();
        let (mode, default) = any_settings();
        any_detected();
        let stream = any_stream_opt();
        let kinds = [any_kind(), any_kind(), any_kind(), any_kind()];
        let kinds = &kinds[..any_index(KINDS + 1)];
        let got = should_color(stream, kinds);
        #[cfg(not(feature = "strip"))]
        {
            kani::cover!(got);
        }
        kani::cover!(!got);
        assert!(got == spec(mode, default, stream, supports(0, kinds), supports(1, kinds)), "the decision follows the precedence list");
        assert!(settings_are(mode, default), "deciding changes no setting");
    }
    /// a style's decision is the one for the kinds of its three layers
    fn style_decision() {
        any_world();
        let (mode, default) = any_settings();
        any_detected();
        let (fg, bg, ul) = (O::any(), O::any(), O::any());
        let style = Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(any_mask()));
        let kinds = &[kind(fg), kind(bg), kind(ul)];
        let stream = any_stream_opt();
        let got = match stream {
            Some(s) if kani::any() => style.should_color(s),
            _ => style.should_color(stream),
        };
        assert!(got == spec(mode, default, stream, supports(0, kinds), supports(1, kinds)), "a style's decision is that for its colour kinds");
        assert!(settings_are(mode, default), "deciding changes no setting");
    }
    /// also with layers that always / never have a colour
    fn typed_style_decision() {
        any_world();
        let (mode, default) = any_settings();
        let stream = any_stream_opt();
        let (a, n) = (G(2), G(1));
        assert!(
            Style::new().fg(a).underline_color(n).should_color(stream)
                == spec(mode, default, stream, supports(0, &[ColorKind::Rgb, ColorKind::Xterm]), supports(1, &[ColorKind::Rgb, ColorKind::Xterm])),
            "a style's decision is that for its colour kinds"
        );
        assert!(
            Style::new().bg(Some(n)).should_color(stream)
                == spec(mode, default, stream, supports(0, &[ColorKind::Xterm]), supports(1, &[ColorKind::Xterm])),
            "a style's decision is that for its colour kinds"
        );
        assert!(
            Style::new().should_color(stream) == spec(mode, default, stream, supports(0, &[]), supports(1, &[])),
            "a style without colours asks for no kind"
        );
    }
}
