//! C17: concurrent setting changes never tear output, settings or decisions.
//!
//! Rely-guarantee: between any two atomic accesses of the call under proof, other threads may do
//! anything the public API lets them do to the shared state (`world::interfere`); one action that picks any
//! settings and optionally detects a stream covers any number of actions.
use crate::c02::{any_world, capability, spec, Capability};
use crate::common::*;
use crate::world::*;
use colorz::mode::*;
use colorz::{Colorize, Effect, Style};
use core::fmt::{self, Display, Formatter};

fn begin(others: u8) {
    any_world();
    set_mode();
    set_default();
    unsafe { OTHERS.mask = others };
}
fn end() {
    unsafe { OTHERS.mask = 0 };
}
/// is `got` the decision for settings in force during the call?
fn legit(got: bool, stream: Option<Stream>, kinds: &[ColorKind]) -> bool {
    let mut ok = false;
    let mut m = 0;
    while m < 3 {
        let mut d = 0;
        while d < 4 {
            let seen = unsafe { W.modes[m] && W.defaults[d] };
            ok |= seen && got == spec(MODES[m], STREAMS[d], stream, capability(0).supports(kinds), capability(1).supports(kinds));
            d += 1;
        }
        m += 1;
    }
    ok
}

/// writes one letter; while it does, other threads act
struct Value;
impl Display for Value {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        interfere();
        f.write_str("v")
    }
}

/// were these in force at some time?
fn known(mode: Mode, default: Stream) -> bool {
    let mut m = 0;
    let mut known = cfg!(feature = "strip") && mode == Mode::Never;
    while m < 3 {
        known |= mode == MODES[m] && unsafe { W.modes[m] };
        m += 1;
    }
    let mut d = 0;
    let mut known_default = false;
    while d < 4 {
        known_default |= default == STREAMS[d] && unsafe { W.defaults[d] };
        d += 1;
    }
    known && known_default
}

world! {
    fn decision() {
        begin(MODE | DEFAULT | DETECT);
        let stream = any_stream_opt();
        let kinds = &[any_kind(), any_kind()];
        let got = should_color(stream, kinds);
        end();
        #[cfg(not(feature = "strip"))]
        {
            kani::cover!(got);
        }
        kani::cover!(!got);
        assert!(legit(got, stream, kinds), "the decision is one that settings in force during the call give");
    }
    /// {any interference} format {the value fully wrapped, or the plain value}
    fn wrapped_or_plain() {
        let style = Style::new().fg(O::any()).underline_color(G(2)).with(Effect::Bold).with(Effect::Underline);
        let p: u8 = kani::any();
        let mut parts = At::new(p);
        let _ = plainly(&mut parts, |f| Display::fmt(&style.apply(), f));
        let _ = plainly(&mut parts, |f| f.write_str("v"));
        let _ = plainly(&mut parts, |f| Display::fmt(&style.clear(), f));
        let plain = At::text(p, "v");

        begin(MODE | DEFAULT);
        let value = Value.into_style_with(style).stream_opt(any_stream_opt());
        let mut got = At::new(p);
        let r = with(&mut got, |f| Display::fmt(&value, f));
        end();
        // which of the two must not depend on the position looked at
        let wrapped = got.len != 1;
        #[cfg(not(feature = "strip"))]
        {
            kani::cover!(wrapped);
        }
        kani::cover!(!wrapped);
        assert!(r.is_ok(), "formatting succeeds");
        assert!(got.same(if wrapped { &parts } else { &plain }), "output is the wrapped or the plain value");
    }
    /// a completed set of the mode survives any concurrent changes of the default stream and detection
    fn mode_kept() {
        begin(DEFAULT | DETECT);
        let mode = any_mode();
        set_coloring_mode(mode);
        let got = get_coloring_mode();
        end();
        let want = if cfg!(feature = "strip") { Mode::Never } else { mode };
        assert!(got == want && get_coloring_mode() == want, "the mode is the one that was set");
    }
    fn default_kept() {
        begin(MODE | DETECT);
        let stream = any_stream();
        set_default_stream(stream);
        let got = get_default_stream();
        end();
        assert!(got == stream && get_default_stream() == stream, "the default stream is the one that was set");
    }
    /// {any call; other threads set the settings it does not set} {what they set last is in force}
    fn others_kept() {
        let call: u8 = kani::any();
        begin(match call {
            0 => DEFAULT | DETECT,
            1 => MODE | DETECT,
            _ => MODE | DEFAULT | DETECT,
        });
        match call {
            0 => set_coloring_mode(any_mode()),
            1 => set_default_stream(any_stream()),
            2 => {
                let _ = (get_coloring_mode(), get_default_stream());
            }
            _ => {
                let _ = should_color(any_stream_opt(), &[any_kind()]);
            }
        }
        end();
        let (mode, default) = unsafe { (MODES[W.mode as usize], STREAMS[W.default as usize]) };
        let mode = if cfg!(feature = "strip") { Mode::Never } else { mode };
        assert!(call == 0 || get_coloring_mode() == mode, "a completed set of the mode is not lost");
        assert!(call == 1 || get_default_stream() == default, "a completed set of the default stream is not lost");
    }
    /// reading a setting during changes gives a value that was in force
    fn reads() {
        begin(MODE | DEFAULT);
        let (mode, default) = (get_coloring_mode(), get_default_stream());
        end();
        assert!(known(mode, default), "a setting that is read was in force");
    }
    #[cfg(not(feature = "strip"))]
    /// concurrent first detections agree with detections one after the other
    fn detection() {
        any_world();
        set_coloring_mode(Mode::Detect);
        unsafe { OTHERS.mask = DETECT };
        let i = any_index(2);
        let kinds = &[any_kind()];
        let s = if i == 0 { Stream::Stdout } else { Stream::Stderr };
        let got = should_color(Some(s), kinds);
        end();
        assert!(got == capability(i).supports(kinds), "the decision is that of the stream's capability");
        assert!(should_color(Some(s), kinds) == got, "and is remembered");
    }
    /// {any call of another thread, at any moment of it} decide {legitimate for the settings before or after}
    fn half_way() {
        begin(0);
        let partial = part_of(|| match kani::any::<u8>() {
            0 => set_mode(),
            1 => set_default(),
            _ => {
                let _ = should_color(any_stream_opt(), &[any_kind(), any_kind()]);
            }
        });
        kani::cover!(partial);
        let (stream, kinds) = (any_stream_opt(), &[any_kind(), any_kind()]);
        assert!(legit(should_color(stream, kinds), stream, kinds), "a decision half way through another call is legitimate");
        let (mode, default) = (get_coloring_mode(), get_default_stream());
        assert!(known(mode, default), "a setting read half way through another call was in force");
    }
}
