//! C01: a styled value is either fully wrapped by its style or left untouched.
use crate::c05::write;
use crate::common::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::*;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{Color, Colorize, Effect, Style, StyledValue, WriteColor};
use core::fmt::{self, Alignment, Binary, Debug, DebugAsHex, Display, Formatter, FormattingOptions, LowerExp, LowerHex, Octal, Pointer, Sign, UpperExp, UpperHex};

/// Ghost value: writes one letter naming the trait it was formatted with, or `!` if it did not
/// see the caller's options. Optionally writes nothing or in two pieces.
#[derive(Clone, Copy)]
struct V {
    expect: FormattingOptions,
    shape: u8,
}
impl V {
    fn put(&self, f: &mut Formatter<'_>, t: &'static str) -> fmt::Result {
        if f.options() != self.expect {
            return f.write_str("!");
        }
        self.text(f, t)
    }
    fn text(&self, f: &mut Formatter<'_>, t: &'static str) -> fmt::Result {
        match self.shape {
            0 => Ok(()),
            1 => f.write_str(t),
            _ => {
                f.write_str(t)?;
                f.write_str(t)
            }
        }
    }
}
macro_rules! traits { ($($t:ident $s:literal)*) => { $(
    impl $t for V { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { self.put(f, $s) } }
)* } }
traits! { Display "d" Debug "g" Binary "b" Octal "o" Pointer "p" LowerExp "e" UpperExp "E" LowerHex "x" UpperHex "X" }

fn any_settings() -> (Mode, Stream, Option<Stream>) {
    let (mode, default) = (any_mode(), any_fixed_stream());
    set_coloring_mode(mode);
    set_default_stream(default);
    (get_coloring_mode(), get_default_stream(), if kani::any() { Some(any_fixed_stream()) } else { None })
}

/// {any settings, options, colour, value; a style with two effects or none} format
/// {byte for byte apply ++ value ++ clear, or just the value}
fn exact<const PLAIN: bool>(t: &'static str, format: impl Fn(&StyledValue<V, O, N, A>, &mut Formatter<'_>) -> fmt::Result) {
    let mut style = Style::new().fg(O::any()).underline_color(G(0));
    if !PLAIN {
        style = style.with(Effect::Bold).with(Effect::Underline);
    }
    let (mode, default, stream) = any_settings();
    let o = any_options();
    let shape: u8 = kani::any();
    kani::assume(shape < 3);
    let value = V { expect: o, shape }.into_style_with(style).stream_opt(stream);
    let on = style.should_color(stream);
    let p: u8 = kani::any();

    let mut whole = At::new(p);
    let r = format(&value, &mut Formatter::new(&mut whole, o));
    assert!(r.is_ok(), "formatting succeeds");
    assert!((get_coloring_mode(), get_default_stream()) == (mode, default), "formatting changes no setting");

    let mut parts = At::new(p);
    if on {
        let _ = plainly(&mut parts, |f| Display::fmt(&style.apply(), f));
    }
    let _ = plainly(&mut parts, |f| value.value.text(f, t));
    if on {
        let _ = plainly(&mut parts, |f| Display::fmt(&style.clear(), f));
    }
    #[cfg(not(feature = "strip"))]
    {
        kani::cover!(on && parts.len > 0);
    }
    kani::cover!(!on);
    assert!(whole.len == parts.len && whole.b == parts.b, "output is exactly prefix, value, suffix, or just the value");
}

macro_rules! each_trait { ($($n:ident $d:ident $s:literal $format:expr;)*) => {
    world! { $(
        fn $n() { exact::<false>($s, $format) }
        fn $d() { exact::<true>($s, $format) }
    )* }
} }
each_trait! {
    display plain_display "d" |v, f| Display::fmt(v, f);
    debug plain_debug "g" |v, f| Debug::fmt(v, f);
    binary plain_binary "b" |v, f| Binary::fmt(v, f);
    octal plain_octal "o" |v, f| Octal::fmt(v, f);
    pointer plain_pointer "p" |v, f| Pointer::fmt(v, f);
    lower_exp plain_lower_exp "e" |v, f| LowerExp::fmt(v, f);
    upper_exp plain_upper_exp "E" |v, f| UpperExp::fmt(v, f);
    lower_hex plain_lower_hex "x" |v, f| LowerHex::fmt(v, f);
    upper_hex plain_upper_hex "X" |v, f| UpperHex::fmt(v, f);
    // a custom formatter is called exactly once, with the value and the formatter
    custom plain_custom "c" |v, f| v.fmt_with(f, |x, f| x.put(f, "c"));
}

struct Marker;
impl Display for Marker {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("v")
    }
}
/// {colouring on, any style} format {byte for byte apply ++ value ++ clear}
fn bytes<F: Layer, B: Layer, U: Layer>() {
    let (style, _) = any_style::<F, B, U>();
    set_coloring_mode(Mode::Always);
    let p: u8 = kani::any();
    let (mut whole, mut parts) = (At::new(p), At::new(p));
    let _ = with(&mut whole, |f| Display::fmt(&Marker.into_style_with(style), f));
    let on = style.should_color(None);
    if on {
        let _ = plainly(&mut parts, |f| Display::fmt(&style.apply(), f));
    }
    let _ = plainly(&mut parts, |f| f.write_str("v"));
    if on {
        let _ = plainly(&mut parts, |f| Display::fmt(&style.clear(), f));
    }
    assert!(whole.len == parts.len && whole.b == parts.b, "output is exactly prefix, value, suffix");
}
combos! { bytes in world: bytes_ano A, N, O; bytes_nao N, A, O; bytes_nno N, N, O; }
/// {any colour of any kind, any layer and form, any options} write {the text without options}
/// (one colour for each implementation; c05 and c07 prove this for every colour)
fn color<C: WriteColor>(c: C) {
    let (layer, escape, p) = (any_index(3) as u8, kani::any(), kani::any());
    let (mut with_options, mut without) = (Pick::new(p), Pick::new(p));
    let _ = with(&mut with_options, |f| write(c, layer, escape, f));
    let _ = plainly(&mut without, |f| write(c, layer, escape, f));
    assert!(with_options.same(&without), "formatting options do not change escape sequences");
}
proof! { unwind 26:
    #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
    fn colors() {
        match kani::any::<u8>() {
            0 => color(colorz::ansi::Red),
            1 => color(AnsiColor::Blue),
            2 => color(colorz::xterm::Red),
            3 => color(XtermColor::from_code(200)),
            4 => color(colorz::css::Red),
            5 => color(CssColor::Blue),
            6 => color(Rgb::<1, 20, 255>),
            _ => color(RgbColor { red: 1, green: 20, blue: 255 }),
        }
    }
    #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
    fn dynamic_colors() {
        match kani::any::<u8>() {
            0 => color(Color::Ansi(AnsiColor::Blue)),
            1 => color(Color::Xterm(XtermColor::from_code(200))),
            2 => color(Color::Css(CssColor::Blue)),
            _ => color(Color::Rgb(RgbColor { red: 1, green: 20, blue: 255 })),
        }
    }
}
#[cfg(colorz_deep)]
pub mod deep {
    use super::*;
    combos! { bytes in world: bytes_ooo O, O, O; bytes_oao O, A, O; bytes_ono O, N, O; bytes_aoo A, O, O; bytes_noo N, O, O; bytes_aao A, A, O; }
}
