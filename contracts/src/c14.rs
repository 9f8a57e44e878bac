//! C14: every named shortcut applies the colour or effect it is named after.
use crate::common::*;
use colorz::mode::Stream;
use colorz::{ansi, Colorize, Effect, NoColor, OptionalColor, Style, StyledValue};
use core::any::TypeId;

/// which layer a shortcut is to change
#[derive(Clone, Copy, PartialEq, Eq)]
enum Where {
    Fg,
    Bg,
}
use Where::*;

/// is `s` the style with exactly the colour type `C` in this layer and no effects?
fn fresh<C: 'static, F: 'static, B: 'static, U: 'static>(s: &Style<F, B, U>, layer: Where) -> bool {
    let none = TypeId::of::<NoColor>();
    let (fg, bg) = if layer == Fg { (TypeId::of::<C>(), none) } else { (none, TypeId::of::<C>()) };
    TypeId::of::<F>() == fg && TypeId::of::<B>() == bg && TypeId::of::<U>() == none && s.effects == flags(0)
}
/// on a borrowed value
fn borrowed<C: 'static, F: 'static, B: 'static, U: 'static>(x: StyledValue<&u32, F, B, U>, v: &u32, layer: Where) {
    assert!(fresh::<C, F, B, U>(&x.style, layer), "a colour shortcut sets exactly the colour it is named after");
    assert!(core::ptr::eq(x.value, v) && x.stream.is_none(), "and nothing else");
}
/// on a value
fn owned<C: 'static, F: 'static, B: 'static, U: 'static>(x: StyledValue<u32, F, B, U>, v: u32, layer: Where) {
    assert!(fresh::<C, F, B, U>(&x.style, layer), "a colour shortcut sets exactly the colour it is named after");
    assert!(x.value == v && x.stream.is_none(), "and nothing else");
}
/// an arbitrary styled value
struct Before {
    fg: O,
    bg: O,
    ul: O,
    m: u16,
    v: u32,
    stream: Option<Stream>,
}
type Any = StyledValue<u32, O, O, O>;
fn any_value() -> (Any, Before) {
    let b = Before { fg: O::any(), bg: O::any(), ul: O::any(), m: any_mask(), v: kani::any(), stream: any_stream_opt() };
    let style = Style::new().fg(b.fg).bg(b.bg).underline_color(b.ul).effect_flags(flags(b.m));
    (StyledValue::new(b.v, style, b.stream), b)
}
macro_rules! colors { ($($c:ident $fun:ident $into_fun:ident $on_fun:ident $into_on_fun:ident;)*) => {
    proof! {
        fn colors_of_borrowed_values() {
            let v: u32 = kani::any();
            $(
                borrowed::<ansi::$c, _, _, _>(v.$fun(), &v, Fg);
                borrowed::<ansi::$c, _, _, _>(v.$on_fun(), &v, Bg);
            )*
        }
        fn colors_of_values() {
            let v: u32 = kani::any();
            $(
                owned::<ansi::$c, _, _, _>(v.$into_fun(), v, Fg);
                owned::<ansi::$c, _, _, _>(v.$into_on_fun(), v, Bg);
            )*
        }
        fn colors_of_styled_values() {
            fn id<F: 'static, B: 'static>(_: &StyledValue<u32, F, B, O>) -> (TypeId, TypeId) {
                (TypeId::of::<F>(), TypeId::of::<B>())
            }
            let (x, b) = any_value();
            let (value, style, stream) = (x.value, x.style, x.stream);
            let other = TypeId::of::<O>();
            $({
                let x = StyledValue::new(value, style, stream).$fun();
                assert!(id(&x) == (TypeId::of::<ansi::$c>(), other), "a colour shortcut sets exactly the colour it is named after");
                assert!(x.style.background == b.bg && x.style.underline_color == b.ul && x.style.effects == style.effects, "and no other layer or effect");
                assert!(x.value == b.v && x.stream == b.stream, "and keeps the value and stream");
                let x = StyledValue::new(value, style, stream).$on_fun();
                assert!(id(&x) == (other, TypeId::of::<ansi::$c>()), "a colour shortcut sets exactly the colour it is named after");
                assert!(x.style.foreground == b.fg && x.style.underline_color == b.ul && x.style.effects == style.effects, "and no other layer or effect");
                assert!(x.value == b.v && x.stream == b.stream, "and keeps the value and stream");
            })*
        }
    }
} }
colors! {
    Black black into_black on_black into_on_black;
    Red red into_red on_red into_on_red;
    Green green into_green on_green into_on_green;
    Yellow yellow into_yellow on_yellow into_on_yellow;
    Blue blue into_blue on_blue into_on_blue;
    Magenta magenta into_magenta on_magenta into_on_magenta;
    Cyan cyan into_cyan on_cyan into_on_cyan;
    White white into_white on_white into_on_white;
    BrightBlack bright_black into_bright_black on_bright_black into_on_bright_black;
    BrightRed bright_red into_bright_red on_bright_red into_on_bright_red;
    BrightGreen bright_green into_bright_green on_bright_green into_on_bright_green;
    BrightYellow bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow;
    BrightBlue bright_blue into_bright_blue on_bright_blue into_on_bright_blue;
    BrightMagenta bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta;
    BrightCyan bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan;
    BrightWhite bright_white into_bright_white on_bright_white into_on_bright_white;
}

macro_rules! effects { ($($e:ident $fun:ident $into_fun:ident;)*) => {
    const FUNS: [Effect; 13] = [$(Effect::$e),*];
    proof! {
        fn effects_of_values() {
            let v: u32 = kani::any();
            let i = any_index(13);
            let none = Style::new();
            let x = [$(v.$fun()),*];
            assert!(x[i].style == none.with(FUNS[i]) && core::ptr::eq(x[i].value, &v) && x[i].stream.is_none(), "an effect shortcut adds exactly the effect it is named after");
            let x = [$(v.$into_fun()),*];
            assert!(x[i].style == none.with(FUNS[i]) && x[i].value == v && x[i].stream.is_none(), "an effect shortcut adds exactly the effect it is named after");
        }
        fn effects_of_styled_values() {
            let (x, b) = any_value();
            let (value, style, stream) = (x.value, x.style, x.stream);
            let x = || StyledValue::new(value, style, stream);
            let i = any_index(13);
            let x = [$(x().$fun()),*];
            let x = &x[i];
            assert!(x.style.effects == flags(b.m | 1 << FUNS[i] as u8), "an effect shortcut adds exactly the effect it is named after");
            assert!(x.style.foreground == b.fg && x.style.background == b.bg && x.style.underline_color == b.ul, "and keeps the colours");
            assert!(x.value == b.v && x.stream == b.stream, "and keeps the value and stream");
        }
        fn effects_of_styles() {
            let (x, b) = any_value();
            let s = x.style;
            let i = any_index(13);
            let s = [$(s.$fun()),*][i];
            assert!(s.effects == flags(b.m | 1 << FUNS[i] as u8), "an effect shortcut adds exactly the effect it is named after");
            assert!(s.foreground == b.fg && s.background == b.bg && s.underline_color == b.ul, "and keeps the colours");
        }
    }
} }
effects! {
    Bold bold into_bold;
    Dimmed dimmed into_dimmed;
    Italic italics into_italics;
    Underline underline into_underline;
    DoubleUnderline double_underline into_double_underline;
    Blink blink into_blink;
    BlinkFast blink_fast into_blink_fast;
    Reversed reverse into_reverse;
    Hidden hide into_hide;
    Strikethrough strikethrough into_strikethrough;
    Overline overline into_overline;
    SuperScript superscript into_superscript;
    SubScript subscript into_subscript;
}

proof! {
    fn generic_shortcuts() {
        let (v, c): (u32, G) = (kani::any(), any_g());
        fn plain<T, F, B, U>(x: &StyledValue<T, F, B, U>) -> bool {
            x.style.effects == flags(0) && x.stream.is_none()
        }
        match kani::any::<u8>() {
            0 => {
                let x = v.fg(c);
                let (NoColor, NoColor) = (x.style.background, x.style.underline_color);
                assert!(x.style.foreground == c && plain(&x) && core::ptr::eq(x.value, &v), "fg sets exactly the given foreground");
                let x = v.into_fg(c);
                let (NoColor, NoColor) = (x.style.background, x.style.underline_color);
                assert!(x.style.foreground == c && plain(&x) && x.value == v, "into_fg sets exactly the given foreground");
            }
            1 => {
                let x = v.bg(c);
                let (NoColor, NoColor) = (x.style.foreground, x.style.underline_color);
                assert!(x.style.background == c && plain(&x) && core::ptr::eq(x.value, &v), "bg sets exactly the given background");
                let x = v.into_bg(c);
                let (NoColor, NoColor) = (x.style.foreground, x.style.underline_color);
                assert!(x.style.background == c && plain(&x) && x.value == v, "into_bg sets exactly the given background");
            }
            _ => {
                let x = v.underline_color(c);
                let (NoColor, NoColor) = (x.style.foreground, x.style.background);
                assert!(x.style.underline_color == c && plain(&x) && core::ptr::eq(x.value, &v), "underline_color sets exactly the given underline colour");
                let x = v.into_underline_color(c);
                let (NoColor, NoColor) = (x.style.foreground, x.style.background);
                assert!(x.style.underline_color == c && plain(&x) && x.value == v, "into_underline_color sets exactly the given underline colour");
            }
        }
    }
}
