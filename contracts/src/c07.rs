//! C07: RGB colours are written exactly for all 16 777 216 values.
use crate::c05::{canonical, write, Spec, Text};
use crate::common::*;
use colorz::mode::ColorKind;
use colorz::rgb::{Rgb, RgbColor};
use colorz::{Color, ColorSpec, WriteColor};
use core::fmt;

fn any_rgb() -> RgbColor {
    RgbColor { red: kani::any(), green: kani::any(), blue: kani::any() }
}
fn spec(c: RgbColor) -> Spec {
    Spec::Rgb(c.red, c.green, c.blue)
}
fn runtime(layer: u8, escape: bool) {
    let c = any_rgb();
    let mut want = Text::new(kani::any());
    canonical(spec(c), layer, escape, &mut want);
    let mut got = Text::new(want.p);
    let r = with(&mut got, |f| if kani::any() { write(c, layer, escape, f) } else { write(Color::Rgb(c), layer, escape, f) });
    assert!(r.is_ok(), "formatter methods report success");
    assert!(got.same(&want), "the colour is written in canonical form");
}
macro_rules! ascii { ($(fn $n:ident() $b:block)*) => { proof! { unwind 26: $(
    #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
    fn $n() $b
)* } } }
ascii! {
    fn foreground_args() { runtime(0, false) }
    fn background_args() { runtime(1, false) }
    fn underline_args() { runtime(2, false) }
    fn foreground() { runtime(0, true) }
    fn background() { runtime(1, true) }
    fn underline() { runtime(2, true) }
    fn kinds() {
        let c = any_rgb();
        assert!(c.color_kind() == ColorKind::Rgb && Color::Rgb(c).color_kind() == ColorKind::Rgb, "reports its kind");
    }
}

/// The compile time types: `generated` proves for every value what their constants are computed
/// by; `instances` looks at some types. (Lengths of the texts: see c05::comptime.)
pub mod comptime {
    use super::*;
    #[cfg(colorz_contracts)]
    fn generated(layer: u8) {
        let c = any_rgb();
        let [escape, args, bare] = colorz::rgb::__verif::comptime(b'3' + layer, c.red, c.green, c.blue);
        let p: u8 = kani::any();
        let mut want = Text::new(p);
        canonical(spec(c), layer, true, &mut want);
        let at = |(text, len): ([u8; 19], u8)| Text { p, b: if p < len && p < 19 { text[p as usize] } else { 0 }, len };
        assert!(at(escape).same(&want), "the escape sequence is canonical");
        let mut want = Text::new(p);
        canonical(spec(c), layer, false, &mut want);
        assert!(at(args).same(&want), "the arguments are canonical");
        let mut want = Text::new(p);
        want.str("2;").dec(c.red).str(";").dec(c.green).str(";").dec(c.blue);
        assert!(at(bare).same(&want), "the bare arguments are canonical");
    }
    #[cfg(colorz_contracts)]
    proof! { unwind 21:
        fn generated_foreground() { generated(0) }
        fn generated_background() { generated(1) }
        fn generated_underline() { generated(2) }
    }

    fn part(s: &'static str, len: u8) -> &'static str {
        unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(s.as_ptr(), len as usize)) }
    }
    macro_rules! instances { ($($r:literal $g:literal $b:literal;)*) => {
        const N: usize = [$($r),*].len();
        const VALUES: [RgbColor; N] = [$(RgbColor { red: $r, green: $g, blue: $b }),*];
        const CONSTS: [&[&str; N]; 6] = [
            &[$(Rgb::<$r, $g, $b>::FOREGROUND_ARGS),*], &[$(Rgb::<$r, $g, $b>::BACKGROUND_ARGS),*], &[$(Rgb::<$r, $g, $b>::UNDERLINE_ARGS),*],
            &[$(Rgb::<$r, $g, $b>::FOREGROUND_ESCAPE),*], &[$(Rgb::<$r, $g, $b>::BACKGROUND_ESCAPE),*], &[$(Rgb::<$r, $g, $b>::UNDERLINE_ESCAPE),*],
        ];
        const ARGS: &[&str; N] = &[$(Rgb::<$r, $g, $b>::ARGS),*];
        fn accessor<C: ColorSpec>(c: C, layer: u8, escape: bool) -> &'static str {
            match (layer, escape) {
                (0, true) => c.foreground_escape(),
                (1, true) => c.background_escape(),
                (_, true) => c.underline_escape(),
                (0, _) => c.foreground_args(),
                (1, _) => c.background_args(),
                _ => c.underline_args(),
            }
        }
        proof! { unwind 21:
            fn instances() {
                let (i, p, layer, escape) = (any_index(N), kani::any(), any_index(3) as u8, kani::any());
                let mut want = Text::new(p);
                canonical(spec(VALUES[i]), layer, escape, &mut want);
                assert!(Text::text(p, CONSTS[layer as usize + 3 * escape as usize][i]).same(&want), "compile time constants are canonical");
                let got = [$(accessor(Rgb::<$r, $g, $b>, layer, escape)),*][i];
                assert!(Text::text(p, part(got, want.len)).same(&want), "string accessors give the canonical text");
                assert!([$(<Rgb::<$r, $g, $b> as ColorSpec>::KIND),*][i] == ColorKind::Rgb, "is of its kind");
                let mut want = Text::new(p);
                want.str("2;").dec(VALUES[i].red).str(";").dec(VALUES[i].green).str(";").dec(VALUES[i].blue);
                assert!(Text::text(p, ARGS[i]).same(&want), "the bare arguments are canonical");
            }
        }
    } }
    instances! { 0 0 0; 1 2 3; 9 10 99; 10 9 100; 100 99 9; 101 199 200; 249 250 255; 255 0 128; }
}
