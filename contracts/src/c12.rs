//! C12: write errors stop output and are reported.
use crate::common::*;
use colorz::mode::{set_coloring_mode, Mode};
use colorz::rgb::RgbColor;
use colorz::{Color, Colorize, Effect, Style, StyledValue, WriteColor};
use core::cell::Cell;
use core::fmt::{self, Debug, Display, Formatter, Write};

/// {a destination that fails at an arbitrary write} run {an error exactly if it failed, and no write after that}
fn check(run: impl Fn(&mut Formatter<'_>) -> fmt::Result) {
    let mut s = Failing::new(Count(0), kani::any());
    let r = with(&mut s, &run);
    kani::cover!(s.failed);
    kani::cover!(!s.failed);
    assert!(r.is_err() == s.failed, "an error is returned exactly if a write failed");
    assert!(!s.after, "nothing is written after a failed write");
}
/// as `check`, and what was written is a prefix of the undisturbed output
fn check_prefix(run: impl Fn(&mut Formatter<'_>) -> fmt::Result) {
    let p: u8 = kani::any();
    let mut full = At::new(p);
    let ok = with(&mut full, &run);
    assert!(ok.is_ok(), "succeeds on a working destination");
    let mut s = Failing::new(At::new(p), kani::any());
    let r = with(&mut s, &run);
    kani::cover!(s.failed);
    assert!(r.is_err() == s.failed && !s.after, "fails cleanly");
    if s.failed {
        assert!(s.to.len <= full.len && (p >= s.to.len || s.to.b == full.b), "output before the failure is a prefix");
    } else {
        assert!(s.to.len == full.len && s.to.b == full.b, "output without failure is complete");
    }
}
fn apply<F: Layer, B: Layer, U: Layer>() {
    let (style, w) = any_style::<F, B, U>();
    check(|f| Display::fmt(&style.apply(), f))
}
fn clear<F: Layer, B: Layer, U: Layer>() {
    let (style, w) = any_style::<F, B, U>();
    check(|f| Display::fmt(&style.clear(), f))
}
fn apply_prefix<F: Layer, B: Layer, U: Layer>() {
    let (style, w) = any_style::<F, B, U>();
    check_prefix(|f| Display::fmt(&style.apply(), f))
}
fn clear_prefix<F: Layer, B: Layer, U: Layer>() {
    let (style, w) = any_style::<F, B, U>();
    check_prefix(|f| Display::fmt(&style.clear(), f))
}
combos! { apply:
    apply_ooo O, O, O; apply_oao O, A, O; apply_ono O, N, O;
    apply_aoo A, O, O; apply_aao A, A, O; apply_ano A, N, O;
    apply_noo N, O, O; apply_nao N, A, O; apply_nno N, N, O;
}
combos! { clear:
    clear_ooo O, O, O; clear_oao O, A, O; clear_ono O, N, O;
    clear_aoo A, O, O; clear_aao A, A, O; clear_ano A, N, O;
    clear_noo N, O, O; clear_nao N, A, O; clear_nno N, N, O;
}
#[cfg(colorz_deep)]
pub mod deep {
    use super::*;
    combos! { apply_prefix:
        apply_ooo O, O, O; apply_ono O, N, O; apply_ano A, N, O; apply_nao N, A, O; apply_nno N, N, O;
    }
    combos! { clear_prefix:
        clear_ooo O, O, O; clear_ono O, N, O; clear_ano A, N, O; clear_nao N, A, O; clear_nno N, N, O;
    }
}

/// a value that writes twice and then reports an error or not
struct Val<'a> {
    fails: bool,
    over: &'a Cell<bool>,
}
impl Val<'_> {
    fn write(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("v")?;
        f.write_str("w")?;
        if self.fails {
            self.over.set(true);
            return Err(fmt::Error);
        }
        Ok(())
    }
}
/// a destination that may fail, and that notices writes after the value has failed
struct Guard<'a> {
    to: Failing<Count>,
    over: &'a Cell<bool>,
    late: bool,
}
impl fmt::Write for Guard<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.late |= self.over.get();
        self.to.write_str(s)
    }
}
macro_rules! vals { ($($t:ident)*) => { $( impl fmt::$t for Val<'_> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { self.write(f) } } )* } }
vals! { Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex }

/// {any style, on or off, a destination failing anywhere, a value failing or not} format
/// {an error exactly if something failed, nothing written after it}
fn value_with<F: Layer, B: Layer, U: Layer>(style: Style<F, B, U>, run: impl Fn(&StyledValue<Val<'_>, F, B, U>, &mut Formatter<'_>) -> fmt::Result) {
    let on: bool = kani::any();
    set_coloring_mode(if on { Mode::Always } else { Mode::Never });
    let fails: bool = kani::any();
    let over = Cell::new(false);
    let v = Val { fails, over: &over }.into_style_with(style);
    let mut s = Guard { to: Failing::new(Count(0), kani::any()), over: &over, late: false };
    let r = with(&mut s, |f| run(&v, f));
    kani::cover!(s.to.failed && on);
    kani::cover!(!s.to.failed && fails);
    assert!(r.is_err() == (s.to.failed || fails), "an error is returned exactly if a write or the value failed");
    assert!(!s.to.after, "nothing is written after a failed write");
    assert!(!s.late, "nothing is written after the value failed");
}
fn value<F: Layer, B: Layer, U: Layer>() {
    value_with(any_style::<F, B, U>().0, |v, f| Display::fmt(v, f))
}
combos! { value in world: value_ooo O, O, O; value_ano A, N, O; value_nao N, A, O; value_nno N, N, O; }

macro_rules! each_trait { ($($n:ident $format:expr;)*) => { world! { $(
    fn $n() {
        value_with(Style::new().fg(O::any()).underline_color(G(0)).with(Effect::Bold).with(Effect::Underline), $format)
    }
)* } } }
each_trait! {
    debug |v, f| Debug::fmt(v, f);
    binary |v, f| fmt::Binary::fmt(v, f);
    octal |v, f| fmt::Octal::fmt(v, f);
    pointer |v, f| fmt::Pointer::fmt(v, f);
    lower_exp |v, f| fmt::LowerExp::fmt(v, f);
    upper_exp |v, f| fmt::UpperExp::fmt(v, f);
    lower_hex |v, f| fmt::LowerHex::fmt(v, f);
    upper_hex |v, f| fmt::UpperHex::fmt(v, f);
    custom |v, f| v.fmt_with(f, |x, f| x.write(f));
}

proof! {
    fn clear_all() {
        check(|f| Display::fmt(&Style::clear_all(), f))
    }
}
fn color<C: WriteColor>(c: C) {
    let w: u8 = kani::any();
    check(|f| match w {
        0 => c.fmt_foreground(f),
        1 => c.fmt_background(f),
        2 => c.fmt_underline(f),
        3 => c.fmt_foreground_args(f),
        4 => c.fmt_background_args(f),
        _ => c.fmt_underline_args(f),
    })
}
proof! { unwind 26:
    /// any colour of any type
    #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
    fn dynamic() {
        let (a, n, c) = (any_index(17), kani::any::<u8>(), any_index(147));
        color(match kani::any::<u8>() {
            0 => Color::Ansi(crate::c05::ANSI[a].0),
            1 => Color::Xterm(crate::c05::XTERM[n as usize]),
            2 => Color::Css(crate::c05::CSS[c].0),
            _ => Color::Rgb(RgbColor { red: kani::any(), green: kani::any(), blue: kani::any() }),
        })
    }
    fn ansi() { color(crate::c05::ANSI[any_index(17)].0) }
    fn xterm() { color(crate::c05::XTERM[kani::any::<u8>() as usize]) }
    fn css() { color(crate::c05::CSS[any_index(147)].0) }
    #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
    fn rgb() { color(RgbColor { red: kani::any(), green: kani::any(), blue: kani::any() }) }
    /// compile time types (their formatting is one generic implementation)
    fn types() {
        color(colorz::ansi::Red);
        color(colorz::xterm::Red);
        color(colorz::css::Red);
        color(colorz::rgb::Rgb::<1, 2, 3>);
    }
}
