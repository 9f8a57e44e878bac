//! C13: builder methods change only what they name.
use crate::common::*;
use crate::world::W;
use colorz::mode::Stream;
use colorz::{Color, Colorize, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue, WriteColor};
use core::fmt::{self, Formatter};

/// a colour of another type than the layers start with
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct New(u8);
impl colorz::__verif::Seal for New {}
impl WriteColor for New {
    fn color_kind(self) -> colorz::mode::ColorKind {
        colorz::mode::ColorKind::Ansi
    }
    fn fmt_foreground_args(self, _: &mut Formatter<'_>) -> fmt::Result {
        Ok(())
    }
    fn fmt_background_args(self, _: &mut Formatter<'_>) -> fmt::Result {
        Ok(())
    }
    fn fmt_underline_args(self, _: &mut Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

fn same_set(f: EffectFlags, m: u16) -> bool {
    let i = any_index(13);
    f.is(ALL[i]) == (m >> i & 1 == 1)
}
type S = Style<O, O, O>;
struct Before {
    fg: O,
    bg: O,
    ul: O,
    m: u16,
}
fn any() -> (S, Before) {
    let b = Before { fg: O::any(), bg: O::any(), ul: O::any(), m: any_mask() };
    let mut s = Style::new().fg(b.fg).bg(b.bg).underline_color(b.ul);
    s.foreground = b.fg;
    s.background = b.bg;
    s.underline_color = b.ul;
    s.effects = flags(b.m);
    (s, b)
}
impl Before {
    /// the colours are as before
    fn colors(&self, s: &S) -> bool {
        s.foreground == self.fg && s.background == self.bg && s.underline_color == self.ul
    }
}
/// an arbitrary styled value
fn any_value() -> (StyledValue<u32, O, O, O>, Before, u32, Option<Stream>) {
    let ((s, b), v, stream) = (any(), kani::any(), any_stream_opt());
    let mut x = StyledValue::new(v, s, stream);
    x.value = v;
    x.style = s;
    x.stream = stream;
    (x, b, v, stream)
}

proof! { unwind 18:
    fn style_starts_empty() {
        let s = Style::new();
        let NoColor = s.foreground;
        let NoColor = s.background;
        let NoColor = s.underline_color;
        assert!(same_set(s.effects, 0), "a new style has no effects");
        let s = Style::default();
        let NoColor = s.foreground;
        let NoColor = s.background;
        let NoColor = s.underline_color;
        assert!(same_set(s.effects, 0), "a default style has no effects");
    }
    fn style_colors() {
        let (s, b) = any();
        let c = New(kani::any());
        match kani::any::<u8>() {
            0 => {
                let n = s.fg(c);
                assert!(n.foreground == c, "fg sets the foreground");
                assert!(n.background == b.bg && n.underline_color == b.ul && same_set(n.effects, b.m), "fg keeps the rest");
            }
            1 => {
                let n = s.bg(c);
                assert!(n.background == c, "bg sets the background");
                assert!(n.foreground == b.fg && n.underline_color == b.ul && same_set(n.effects, b.m), "bg keeps the rest");
            }
            _ => {
                let n = s.underline_color(c);
                assert!(n.underline_color == c, "underline_color sets the underline colour");
                assert!(n.foreground == b.fg && n.background == b.bg && same_set(n.effects, b.m), "underline_color keeps the rest");
            }
        }
    }
    fn style_effects() {
        let (s, b) = any();
        let (m, e) = (any_mask(), any_index(13));
        let bit = 1u16 << e;
        let (n, want) = match kani::any::<u8>() {
            0 => (s.with(ALL[e]), b.m | bit),
            1 => (s.without(ALL[e]), b.m & !bit),
            2 => (s.toggled(ALL[e]), b.m ^ bit),
            3 => (s.effect_flags(flags(m)), m),
            4 => (s.clear_effects(), 0),
            5 => (s.effects_array([]), 0),
            6 => (s.effects_array([ALL[e], ALL[e]]), bit),
            _ => {
                let f = any_index(13);
                (s.effects_array([ALL[e], ALL[f], ALL[e]]), bit | 1 << f)
            }
        };
        assert!(same_set(n.effects, want), "effect builders set exactly the effects they name");
        assert!(n.effects == flags(want), "effect builders set exactly the effects they name");
        assert!(b.colors(&n), "effect builders keep the colours");
    }
    fn style_effects_from_iterators() {
        let (s, b) = any();
        let (e, f) = (any_index(13), any_index(13));
        let m = any_mask();
        let list = [ALL[e], ALL[f]];
        let (n, want) = match kani::any::<u8>() {
            0 => (s.effects(list), 1 << e | 1 << f),
            1 => (s.effects(&list), 1 << e | 1 << f),
            2 => (s.effects(Some(ALL[e])), 1 << e),
            3 => (s.effects(None::<Effect>), 0),
            _ => (s.effects(flags(m)), m),
        };
        assert!(same_set(n.effects, want), "effects sets exactly the given effects");
        assert!(n.effects == flags(want), "effects sets exactly the given effects");
        assert!(b.colors(&n), "effects keeps the colours");
    }
    fn new_value() {
        let ((s, b), v, stream): (_, u32, _) = (any(), kani::any(), any_stream_opt());
        let x = StyledValue::new(v, s, stream);
        assert!(x.value == v && x.stream == stream, "new keeps value and stream");
        assert!(b.colors(&x.style) && same_set(x.style.effects, b.m), "new keeps the style");
    }
    fn value_colors() {
        let (x, b, v, stream) = any_value();
        let c = New(kani::any());
        match kani::any::<u8>() {
            0 => {
                let n = x.fg(c);
                assert!(n.style.foreground == c, "fg sets the foreground");
                assert!(n.value == v && n.stream == stream, "fg keeps value and stream");
                assert!(n.style.background == b.bg && n.style.underline_color == b.ul && same_set(n.style.effects, b.m), "fg keeps the rest");
            }
            1 => {
                let n = x.bg(c);
                assert!(n.style.background == c, "bg sets the background");
                assert!(n.value == v && n.stream == stream, "bg keeps value and stream");
                assert!(n.style.foreground == b.fg && n.style.underline_color == b.ul && same_set(n.style.effects, b.m), "bg keeps the rest");
            }
            _ => {
                let n = x.underline_color(c);
                assert!(n.style.underline_color == c, "underline_color sets the underline colour");
                assert!(n.value == v && n.stream == stream, "underline_color keeps value and stream");
                assert!(n.style.foreground == b.fg && n.style.background == b.bg && same_set(n.style.effects, b.m), "underline_color keeps the rest");
            }
        }
    }
    fn value_stream() {
        let (x, b, v, _) = any_value();
        let (n, want) = if kani::any() {
            let s = any_stream();
            (x.stream(s), Some(s))
        } else {
            let s = any_stream_opt();
            (x.stream_opt(s), s)
        };
        assert!(n.stream == want, "the stream is the one that was set");
        assert!(n.value == v && b.colors(&n.style) && same_set(n.style.effects, b.m), "setting the stream keeps the rest");
    }
    fn value_nested() {
        let (x, b, v, stream) = any_value();
        fn empty<T>(s: &StyledValue<T>) -> bool {
            let NoColor = s.style.foreground;
            let NoColor = s.style.background;
            let NoColor = s.style.underline_color;
            same_set(s.style.effects, 0) && s.stream.is_none()
        }
        let r = x.style();
        assert!(empty(&r) && core::ptr::eq(r.value, &x), "style wraps the styled value with nothing added");
        let o = x.into_style();
        assert!(empty(&o), "into_style wraps with nothing added");
        let x = o.value;
        assert!(x.value == v && x.stream == stream && b.colors(&x.style) && same_set(x.style.effects, b.m), "into_style keeps the styled value");
    }
    fn wrapped() {
        let (s, b) = any();
        let v: u32 = kani::any();
        fn empty<T>(s: &StyledValue<T>) -> bool {
            let NoColor = s.style.foreground;
            let NoColor = s.style.background;
            let NoColor = s.style.underline_color;
            same_set(s.style.effects, 0) && s.stream.is_none()
        }
        let x = Colorize::style(&v);
        assert!(empty(&x) && core::ptr::eq(x.value, &v), "style wraps with nothing added");
        let x = Colorize::into_style(v);
        assert!(empty(&x) && x.value == v, "into_style wraps with nothing added");
        let x = v.style_with(s);
        assert!(core::ptr::eq(x.value, &v) && x.stream.is_none() && b.colors(&x.style) && same_set(x.style.effects, b.m), "style_with wraps with exactly the given style");
        let x = v.into_style_with(s);
        assert!(x.value == v && x.stream.is_none() && b.colors(&x.style) && same_set(x.style.effects, b.m), "into_style_with wraps with exactly the given style");
    }
}
