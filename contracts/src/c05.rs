//! C05: every named colour writes its canonical SGR parameters in every layer.
use crate::common::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::mode::ColorKind;
use colorz::xterm::XtermColor;
use colorz::{ansi, css, xterm, Color, ColorSpec, WriteColor};
use core::fmt::{self, Formatter};

pub type Text = Pick;

/// What a colour denotes, from the oracle tables
#[derive(Clone, Copy)]
pub enum Spec {
    Ansi { fg: u8, bg: u8, xterm: u8 },
    Xterm(u8),
    Rgb(u8, u8, u8),
}
use Spec::*;

/// the canonical text of a colour in a layer (0 foreground, 1 background, 2 underline)
pub fn canonical(spec: Spec, layer: u8, escape: bool, t: &mut Text) {
    if escape {
        t.str("\x1b[");
    }
    match spec {
        Ansi { fg, .. } if layer == 0 => {
            t.dec(fg);
        }
        Ansi { bg, .. } if layer == 1 => {
            t.dec(bg);
        }
        Ansi { xterm, .. } => {
            t.str("58;5;").dec(xterm);
        }
        Xterm(n) => {
            t.dec(38 + 10 * layer).str(";5;").dec(n);
        }
        Rgb(r, g, b) => {
            t.dec(38 + 10 * layer).str(";2;").dec(r).str(";").dec(g).str(";").dec(b);
        }
    }
    if escape {
        t.str("m");
    }
}
fn kind(spec: Spec) -> ColorKind {
    match spec {
        Ansi { .. } => ColorKind::Ansi,
        Xterm(_) => ColorKind::Xterm,
        Rgb(..) => ColorKind::Rgb,
    }
}
pub fn write<C: WriteColor>(c: C, layer: u8, escape: bool, f: &mut Formatter<'_>) -> fmt::Result {
    match (layer, escape) {
        (0, true) => c.fmt_foreground(f),
        (1, true) => c.fmt_background(f),
        (_, true) => c.fmt_underline(f),
        (0, _) => c.fmt_foreground_args(f),
        (1, _) => c.fmt_background_args(f),
        _ => c.fmt_underline_args(f),
    }
}
fn text<C: ColorSpec>(c: C, layer: u8, escape: bool) -> &'static str {
    match (layer, escape) {
        (0, true) => c.foreground_escape(),
        (1, true) => c.background_escape(),
        (_, true) => c.underline_escape(),
        (0, _) => c.foreground_args(),
        (1, _) => c.background_args(),
        _ => c.underline_args(),
    }
}
/// Keeps the text of the one write it receives (wide builds: observes any number of writes).
/// Looking at the text only once, whichever way it was obtained, keeps the proofs small.
struct Once {
    text: Option<&'static str>,
    seen: Text,
}
impl fmt::Write for Once {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if cfg!(colorz_wide) {
            self.seen.str(s);
        } else {
            assert!(self.text.is_none(), "LIMIT: more than one write");
            self.text = Some(unsafe { &*(s as *const str) });
        }
        Ok(())
    }
}
fn written<C: WriteColor>(c: C, layer: u8, escape: bool, once: &mut Once) {
    let r = with(once, |f| write(c, layer, escape, f));
    assert!(r.is_ok(), "formatter methods report success");
}
fn kind_of<C: ColorSpec>(_: C) -> ColorKind {
    C::KIND
}
fn any_layer() -> u8 {
    any_index(3) as u8
}

macro_rules! tables {
    (ansi; $(($n:ident $fg:literal $bg:literal $x:literal))*) => {
        pub const ANSI: [(AnsiColor, Spec); 17] = [$((AnsiColor::$n, Ansi { fg: $fg, bg: $bg, xterm: $x })),*];
    };
    (xterm; $(($n:ident $c:literal))*) => { pub const XTERM: [XtermColor; 256] = [$(XtermColor::$n),*]; };
    (css; $(($n:ident $r:literal $g:literal $b:literal))*) => {
        pub const CSS: [(CssColor, Spec); 147] = [$((CssColor::$n, Rgb($r, $g, $b))),*];
    };
}
ansi_table!(tables ansi);
xterm_table!(tables xterm);
css_table!(tables css);

macro_rules! runtime { ($($n:ident $pick:expr;)*) => { $( pub mod $n {
    use super::*;
    fn all(layer: u8, escape: bool) {
        let (c, spec) = $pick;
        let mut want = Text::new(kani::any());
        canonical(spec, layer, escape, &mut want);
        let mut once = Once { text: None, seen: Text::new(want.p) };
        match kani::any::<u8>() {
            0 => written(c, layer, escape, &mut once),
            1 => once.text = Some(text(c, layer, escape)),
            _ => once.text = Some(match (layer, escape) {
                (0, true) => c.foreground_escape(),
                (1, true) => c.background_escape(),
                (_, true) => c.underline_escape(),
                (0, _) => c.foreground_args(),
                (1, _) => c.background_args(),
                _ => c.underline_args(),
            }),
        }
        let got = match once.text {
            Some(s) => Text::text(want.p, s),
            None => once.seen,
        };
        assert!(got.same(&want), "formatter methods, string accessors and inherent accessors give the canonical text");
        assert!(kind_of(c) == kind(spec), "has the kind of its family");
        assert!(c.color_kind() == kind(spec), "reports the kind of its family");
    }
    proof! { unwind 21:
        fn foreground_args() { all(0, false) }
        fn background_args() { all(1, false) }
        fn underline_args() { all(2, false) }
        fn foreground() { all(0, true) }
        fn background() { all(1, true) }
        fn underline() { all(2, true) }
    }
} )* } }
runtime! {
    ansi_colors ANSI[any_index(17)];
    xterm_colors { let n: u8 = kani::any(); (XTERM[n as usize], Xterm(n)) };
    css_colors CSS[any_index(147)];
}

/// The dynamic colour type: any of the named colours (`Color::Rgb`: see c07)
pub mod dynamic {
    use super::*;
    fn all(layer: u8, escape: bool) {
        let (a, n, c) = (any_index(17), kani::any::<u8>(), any_index(147));
        let (c, spec) = match kani::any::<u8>() {
            0 => (Color::Ansi(ANSI[a].0), ANSI[a].1),
            1 => (Color::Xterm(XTERM[n as usize]), Xterm(n)),
            _ => (Color::Css(CSS[c].0), CSS[c].1),
        };
        let mut want = Text::new(kani::any());
        canonical(spec, layer, escape, &mut want);
        let mut once = Once { text: None, seen: Text::new(want.p) };
        written(c, layer, escape, &mut once);
        let got = match once.text {
            Some(s) => Text::text(want.p, s),
            None => once.seen,
        };
        assert!(got.same(&want), "the dynamic colour writes the canonical text");
        assert!(c.color_kind() == kind(spec), "reports the kind of its family");
    }
    proof! { unwind 26:
        #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
        fn foreground_args() { all(0, false) }
        #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
        fn background_args() { all(1, false) }
        #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
        fn underline_args() { all(2, false) }
        #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
        fn foreground() { all(0, true) }
        #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
        fn background() { all(1, true) }
        #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
        fn underline() { all(2, true) }
    }
}

/// The compile time types: their constants and accessors give the canonical texts.
///
/// Kani 0.68 gives a `&str` constant that is a proper part of a bigger constant (the css and rgb
/// texts are parts of a 20 byte buffer) the length of the whole. Read from an array constant the
/// length is right, so constants are read from arrays; for accessors that return such a constant
/// only the text up to the canonical length is compared here, and their length is left to the
/// exhaustive native run (`main.rs`).
pub mod comptime {
    use super::*;
    fn bare(s: &str, spec: Spec, p: u8) {
        let mut want = Text::new(p);
        match spec {
            Ansi { .. } => unreachable!(),
            Xterm(n) => want.str("5;").dec(n),
            Rgb(r, g, b) => want.str("2;").dec(r).str(";").dec(g).str(";").dec(b),
        };
        assert!(Text::text(p, s).same(&want), "the bare arguments are the canonical text");
    }
    fn part(s: &'static str, len: usize) -> &'static str {
        unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(s.as_ptr(), len)) }
    }
    macro_rules! types {
        ($fam:ident $mod:ident $n:literal $kind:ident $d:ident $spec:expr; $whole:literal; ($t0:ident $($_:literal)*) $(($t:ident $($__:literal)*))*) => { types!{@ $fam $mod $n $kind $d $spec; $whole; $t0 $($t)*} };
        (@ $fam:ident ansi $n:literal $kind:ident $d:ident $spec:expr; $whole:literal; $($t:ident)*) => { types!{@@ $fam ansi $n $kind $d $spec; $whole;
            [$(ansi::$t::FOREGROUND_ARGS),*] [$(ansi::$t::BACKGROUND_ARGS),*] [$(AnsiColor::$t.underline_args()),*]
            [$(ansi::$t::FOREGROUND_ESCAPE),*] [$(ansi::$t::BACKGROUND_ESCAPE),*] [$(AnsiColor::$t.underline_escape()),*]
            $($t)* {}
        } };
        (@ $fam:ident $mod:ident $n:literal $kind:ident $d:ident $spec:expr; $whole:literal; $($t:ident)*) => {
            types!{@@ $fam $mod $n $kind $d $spec; $whole;
                [$($mod::$t::FOREGROUND_ARGS),*] [$($mod::$t::BACKGROUND_ARGS),*] [$($mod::$t::UNDERLINE_ARGS),*]
                [$($mod::$t::FOREGROUND_ESCAPE),*] [$($mod::$t::BACKGROUND_ESCAPE),*] [$($mod::$t::UNDERLINE_ESCAPE),*]
                $($t)*
                {
                const ARGS: &[&str; $n] = &[$($mod::$t::ARGS),*];
                const DYNAMIC: &[&str; $n] = &[$($d::$t.args()),*];
                proof! { fn bare_args() {
                    let (i, p) = (any_index($n), kani::any());
                    bare(ARGS[i], $spec(i), p);
                    bare(DYNAMIC[i], $spec(i), p);
                } }
            }
            }
        };
        (@@ $fam:ident $mod:ident $n:literal $kind:ident $d:ident $spec:expr; $whole:literal; $a:tt $b:tt $c:tt $e:tt $f:tt $g:tt $($t:ident)* { $($bare:item)* }) => { pub mod $fam {
            use super::*;
            $($bare)*
            const CONSTS: [&[&str; $n]; 6] = [&$a, &$b, &$c, &$e, &$f, &$g];
            fn check(layer: u8, escape: bool) {
                let (i, p) = (any_index($n), kani::any());
                let got = [$(text($mod::$t, layer, escape)),*][i];
                let mut want = Text::new(p);
                canonical($spec(i), layer, escape, &mut want);
                let got = if $whole { got } else { part(got, want.len as usize) };
                assert!(Text::text(p, got).same(&want), "string accessors give the canonical text");
                let constant = CONSTS[layer as usize + 3 * escape as usize][i];
                assert!(Text::text(p, constant).same(&want), "compile time constants are the canonical text");
            }
            proof! {
                fn kinds() { $( assert!(<$mod::$t as ColorSpec>::KIND == ColorKind::$kind, "has the kind of its family"); )* }
                fn foreground_args() { check(0, false) }
                fn background_args() { check(1, false) }
                fn underline_args() { check(2, false) }
                fn foreground() { check(0, true) }
                fn background() { check(1, true) }
                fn underline() { check(2, true) }
            }
        } };
    }
    ansi_table!(types ansi_types ansi 17 Ansi AnsiColor (|i: usize| ANSI[i].1); true);
    css_table!(types css_types css 147 Rgb CssColor (|i: usize| CSS[i].1); false);
    xterm_table!(types xterm_types xterm 256 Xterm XtermColor (|i: usize| Xterm(i as u8)); true);
}
