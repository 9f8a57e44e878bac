//! C10: global settings read back what was last set and do not affect each other.
use crate::c02::any_world;
use crate::common::*;
use colorz::mode::*;
use colorz::{Color, Colorize, Effect, EffectFlags, Style};
use core::fmt::Display;

/// what reading the mode gives after `mode` was set
fn reads(mode: Mode) -> Mode {
    if cfg!(feature = "strip") {
        Mode::Never
    } else {
        mode
    }
}
world! {
    fn initial() {
        assert!(get_coloring_mode() == reads(Mode::Detect), "the mode starts as Detect");
        assert!(get_default_stream() == Stream::AlwaysColor, "the default stream starts as AlwaysColor");
        assert!(get_coloring_mode() == reads(Mode::Detect) && get_default_stream() == Stream::AlwaysColor, "reading changes nothing");
    }
    /// {any settings, reached by setting them in either order or not at all} one more operation
    /// {exactly the setting it names has changed}; by induction this holds for every history
    fn step() {
        any_world();
        let (mut mode, mut default) = (Mode::Detect, Stream::AlwaysColor);
        let first: bool = kani::any();
        if first && kani::any() {
            mode = any_mode();
            set_coloring_mode(mode);
        }
        if kani::any() {
            default = any_stream();
            set_default_stream(default);
        }
        if !first && kani::any() {
            mode = any_mode();
            set_coloring_mode(mode);
        }
        assert!(get_coloring_mode() == reads(mode) && get_default_stream() == default, "both settings read back");
        match kani::any::<u8>() {
            0 => {
                mode = any_mode();
                set_coloring_mode(mode);
            }
            1 => {
                default = any_stream();
                set_default_stream(default);
            }
            2 => {
                let _ = should_color(any_stream_opt(), &[any_kind()]);
            }
            3 => {
                let style = Style::new().fg(O::any()).with(Effect::Bold);
                let _ = plainly(&mut Count(0), |f| Display::fmt(&1u8.into_style_with(style).stream_opt(any_stream_opt()), f));
            }
            4 => {
                let style = Style::new().bg(O::any()).effect_flags(flags(any_mask()));
                let _ = length(|f| Display::fmt(&style.apply(), f));
                let _ = length(|f| Display::fmt(&style.clear(), f));
                let _ = length(|f| Display::fmt(&Style::clear_all(), f));
            }
            5 => {
                let s = ["always", "never", "detect", "stdout", "stderr", "x", ""][any_index(7)];
                let _ = s.parse::<Mode>();
                let _ = s.parse::<Stream>();
                let _ = "#123456".parse::<Color>();
            }
            6 => {
                let mut e = EffectFlags::all();
                e.toggle(any_effect());
                let _ = e.iter().next();
                let v = 1u8.into_style_with(Style::new().effect_flags(e)).stream(any_stream());
                let _ = v.style.is_plain();
            }
            _ => {}
        }
        assert!(get_coloring_mode() == reads(mode), "the mode reads back what was last set");
        assert!(get_default_stream() == default, "the default stream reads back what was last set");
        assert!(get_coloring_mode() == reads(mode), "reading the default stream does not change the mode");
    }
}
/// reading the environment sets at most the mode (what it sets: see c15)
#[cfg(feature = "std")]
world! {
    fn from_env_frame() {
        crate::c15::any_env();
        let default = any_stream();
        set_default_stream(default);
        set_coloring_mode(any_mode());
        let mode = get_coloring_mode();
        let _ = Mode::from_env();
        assert!(get_coloring_mode() == mode && get_default_stream() == default, "reading the environment changes no setting");
        set_coloring_mode_from_env();
        assert!(get_default_stream() == default, "setting the mode from the environment leaves the default stream");
    }
}
