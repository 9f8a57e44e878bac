//! C06: compile-time and runtime colours and styles denote the same thing.
//! (That both write the same text follows from C05 and C07, which give the texts of both.)
use crate::common::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{ansi, css, xterm, Color, ColorSpec, ComptimeColor, EffectFlags, NoColor, OptionalColor, Style};

macro_rules! family {
    ($m:ident $types:ident $d:ident $var:ident $n:literal; $(($t:ident $($_:literal)*))*) => { pub mod $m {
        use super::*;
        const RUNTIME: [$d; $n] = [$($d::$t),*];
        const DYNAMIC: [$d; $n] = [$($types::$t::DYNAMIC),*];
        const VALUE: [Option<Color>; $n] = [$(<$types::$t as ComptimeColor>::VALUE),*];
        fn same(a: $d, i: usize) -> bool {
            a == RUNTIME[i] && a as u8 == RUNTIME[i] as u8
        }
        fn same_color(c: Color, i: usize) -> bool {
            c == Color::$var(RUNTIME[i]) && match c {
                Color::$var(c) => same(c, i),
                _ => false,
            }
        }
        fn same_opt(c: Option<Color>, i: usize) -> bool {
            match c {
                Some(c) => same_color(c, i),
                None => false,
            }
        }
        proof! {
            fn into_dynamic() {
                let i = any_index($n);
                assert!(same([$(ColorSpec::into_dynamic($types::$t)),*][i], i), "into_dynamic gives the runtime colour of the same name");
                assert!(same(DYNAMIC[i], i), "DYNAMIC is the runtime colour of the same name");
                assert!(same([$($d::from($types::$t)),*][i], i), "From gives the runtime colour of the same name");
            }
            fn into_color() {
                let i = any_index($n);
                assert!(same_color([$(Color::from($types::$t)),*][i], i), "From gives the dynamic colour of the same name");
                assert!(same_opt([$(Option::<Color>::from($types::$t)),*][i], i), "From gives the optional dynamic colour of the same name");
                assert!(same_opt(VALUE[i], i), "VALUE is the dynamic colour of the same name");
            }
            fn runtime_into_color() {
                let i = any_index($n);
                let c = RUNTIME[i];
                assert!(same(c.into_dynamic(), i), "a runtime colour is its own dynamic colour");
                assert!(same_color(Color::from(c), i), "From keeps the colour");
                assert!(same_opt(Option::<Color>::from(c), i), "From keeps the colour");
            }
        }
    } };
}
ansi_table!(family ansi_colors ansi AnsiColor Ansi 17);
xterm_table!(family xterm_colors xterm XtermColor Xterm 256);
css_table!(family css_colors css CssColor Css 147);

macro_rules! rgb { ($($r:literal $g:literal $b:literal;)*) => { proof! {
    /// compile time rgb colours: the conversions do not depend on the values (instances)
    fn rgb_types() { $({
        type T = Rgb<$r, $g, $b>;
        let c = RgbColor { red: $r, green: $g, blue: $b };
        assert!(T::DYNAMIC == c && ColorSpec::into_dynamic(Rgb::<$r, $g, $b>) == c, "gives the runtime colour of the same value");
        assert!(RgbColor::from(Rgb::<$r, $g, $b>) == c, "From gives the runtime colour of the same value");
        assert!(Color::from(Rgb::<$r, $g, $b>) == Color::Rgb(c), "From gives the dynamic colour of the same value");
        assert!(Option::<Color>::from(Rgb::<$r, $g, $b>) == Some(Color::Rgb(c)), "From gives the optional dynamic colour of the same value");
        assert!(<T as ComptimeColor>::VALUE == Some(Color::Rgb(c)), "VALUE is the dynamic colour of the same value");
    })* }
} } }
rgb! { 0 0 0; 1 2 3; 9 10 99; 100 101 199; 255 0 0; 0 255 0; 0 0 255; 200 249 250; 255 254 253; 3 2 1; }

fn any_rgb() -> RgbColor {
    RgbColor { red: kani::any(), green: kani::any(), blue: kani::any() }
}
/// any dynamic colour
fn any_color() -> Option<Color> {
    match kani::any::<u8>() {
        0 => Some(Color::Ansi(crate::c05::ANSI[any_index(17)].0)),
        1 => Some(Color::Xterm(crate::c05::XTERM[kani::any::<u8>() as usize])),
        2 => Some(Color::Css(crate::c05::CSS[any_index(147)].0)),
        3 => Some(Color::Rgb(any_rgb())),
        _ => None,
    }
}
/// Ghost colour types: one that converts to an arbitrary optional colour, and compile time ones
/// with the values of `VALUES`
#[derive(Clone, Copy)]
struct To(Option<Color>);
impl colorz::__verif::Seal for To {}
impl From<To> for Option<Color> {
    fn from(c: To) -> Self {
        c.0
    }
}
impl OptionalColor for To {
    type Color = Color;
    fn get(self) -> Option<Color> {
        self.0
    }
}
const VALUES: [Option<Color>; 4] = [
    Some(Color::Ansi(AnsiColor::Red)),
    Some(Color::Xterm(XtermColor::Red)),
    Some(Color::Rgb(RgbColor { red: 1, green: 2, blue: 3 })),
    None,
];
#[derive(Clone, Copy)]
struct V<const I: usize>;
impl<const I: usize> colorz::__verif::Seal for V<I> {}
impl<const I: usize> ComptimeColor for V<I> {
    const VALUE: Option<Color> = VALUES[I];
}
impl<const I: usize> OptionalColor for V<I> {
    type Color = Color;
    fn get(self) -> Option<Color> {
        VALUES[I]
    }
}
fn is(s: &Style, fg: Option<Color>, bg: Option<Color>, ul: Option<Color>, m: u16) -> bool {
    s.foreground == fg && s.background == bg && s.underline_color == ul && s.effects == flags(m)
}
const CONST: Style = Style::new().fg(css::Red).bg(ansi::Blue).underline_color(Rgb::<1, 2, 3>).with(colorz::Effect::Bold).const_into_runtime_style();

proof! {
    fn rgb_values() {
        let c = any_rgb();
        assert!(Color::from(c) == Color::Rgb(c), "From keeps the colour");
        assert!(Option::<Color>::from(c) == Some(Color::Rgb(c)), "From keeps the colour");
    }
    fn no_color() {
        assert!(<NoColor as ComptimeColor>::VALUE.is_none() && Option::<Color>::from(NoColor).is_none(), "no colour is no colour");
    }
    fn runtime_style() {
        let (f, b, u, m) = (any_color(), any_color(), any_color(), any_mask());
        let s = Style::new().fg(To(f)).bg(To(b)).underline_color(To(u)).effect_flags(flags(m));
        assert!(is(&s.into_runtime_style(), f, b, u, m), "keeps effects and converts each layer");
        // also from the dynamic colour types
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m));
        assert!(is(&s.into_runtime_style(), f, b, u, m), "keeps effects and converts each layer");
        assert!(is(&Style::new().effect_flags(flags(m)).into_runtime_style(), None, None, None, m), "absent colours stay absent");
    }
    fn const_style() {
        let m = any_mask();
        let e = flags(m);
        let v = VALUES;
        let s = Style::new().effect_flags(e);
        assert!(is(&s.fg(V::<0>).bg(V::<1>).underline_color(V::<2>).const_into_runtime_style(), v[0], v[1], v[2], m), "keeps effects and converts each layer");
        assert!(is(&s.fg(V::<1>).bg(V::<2>).underline_color(V::<3>).const_into_runtime_style(), v[1], v[2], v[3], m), "keeps effects and converts each layer");
        assert!(is(&s.fg(V::<3>).bg(V::<0>).underline_color(V::<1>).const_into_runtime_style(), v[3], v[0], v[1], m), "keeps effects and converts each layer");
        assert!(is(&s.fg(V::<2>).bg(V::<3>).underline_color(V::<0>).const_into_runtime_style(), v[2], v[3], v[0], m), "keeps effects and converts each layer");
        assert!(is(&s.const_into_runtime_style(), None, None, None, m), "absent colours stay absent");
        assert!(is(&CONST, Some(Color::Css(CssColor::Red)), Some(Color::Ansi(AnsiColor::Blue)), v[2], 1), "also when evaluated by the compiler");
    }
}
