//! C19: colour names and codes denote their standard values.
//! (That the standard values are also the ones written: see the proofs of c05 run with these.)
use crate::c05::{Spec, ANSI, CSS, XTERM};
use crate::common::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{ansi, css, xterm, xterm_from_code, ColorSpec};

fn rgb(i: usize) -> RgbColor {
    match CSS[i].1 {
        Spec::Rgb(red, green, blue) => RgbColor { red, green, blue },
        _ => unreachable!(),
    }
}
fn number(i: usize) -> u8 {
    match ANSI[i].1 {
        Spec::Ansi { xterm, .. } => xterm,
        _ => unreachable!(),
    }
}
macro_rules! tables {
    (css; $(($n:ident $r:literal $g:literal $b:literal))*) => {
        const CSS_CONST: [RgbColor; 147] = [$(CssColor::$n.rgb()),*];
        const CSS_TYPE: [RgbColor; 147] = [$(css::$n::DYNAMIC.rgb()),*];
    };
    (ansi; $(($n:ident $fg:literal $bg:literal $x:literal))*) => {
        const ANSI_CONST: [XtermColor; 17] = [$(AnsiColor::$n.to_xterm()),*];
        const ANSI_TYPE: [XtermColor; 17] = [$(ansi::$n::DYNAMIC_XTERM),*];
        proof! {
            fn ansi_types() {
                let i = any_index(17);
                let by_type = [$(ColorSpec::into_dynamic(ansi::$n::XTERM)),*][i];
                assert!(by_type == XTERM[number(i) as usize], "the type of an ANSI colour names the Xterm colour of the same number");
            }
        }
    };
    (xterm; $(($n:ident $c:tt))*) => {
        const XTERM_CONST: [XtermColor; 256] = [$(XtermColor::from_code($c)),*];
        proof! {
            fn xterm_macro() {
                let i: u8 = kani::any();
                let c = [$(ColorSpec::into_dynamic(xterm_from_code!($c))),*][i as usize];
                assert!(c as u8 == i && c == XTERM[i as usize], "xterm_from_code! names the colour with that code");
            }
        }
    };
}
css_table!(tables css);
ansi_table!(tables ansi);
xterm_table!(tables xterm);

proof! {
    fn css_values() {
        let i = any_index(147);
        let c = CSS[i].0;
        assert!(c.rgb() == rgb(i), "the value of a CSS colour is the standard one");
        assert!(RgbColor::from(c) == rgb(i), "conversion gives the standard value");
        assert!(CSS_CONST[i] == rgb(i) && CSS_TYPE[i] == rgb(i), "so do compile time constants");
    }
    fn xterm_codes() {
        let i: u8 = kani::any();
        let c = XtermColor::from_code(i);
        assert!(c as u8 == i && c == XTERM[i as usize], "a code gives the one colour with that code");
        assert!(XtermColor::from(i) == c, "From gives it, too");
        assert!(XTERM_CONST[i as usize] == c, "also at compile time");
    }
    fn ansi_numbers() {
        let i = any_index(17);
        let want = XTERM[number(i) as usize];
        assert!(i == 16 || number(i) as usize == i, "the table is in standard order");
        assert!(ANSI[i].0.to_xterm() == want, "an ANSI colour is the Xterm colour of the same number");
        assert!(XtermColor::from(ANSI[i].0) == want, "From gives it, too");
        assert!(ANSI_CONST[i] == want && ANSI_TYPE[i] == want, "also at compile time");
    }
}
