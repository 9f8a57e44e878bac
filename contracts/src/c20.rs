//! C20: colouring output allocates no memory.
//!
//! The allocation functions that every heap allocation of safe Rust goes through are replaced by
//! ones that fail the proof. The `control_*` proofs show that they do see allocations.
use crate::c02::any_world;
use crate::c05::{write, ANSI, CSS, XTERM};
use crate::common::*;
use crate::world::*;
use colorz::mode::*;
use colorz::rgb::{Rgb, RgbColor};
use colorz::{ansi, css, xterm, Color, Colorize, Effect, Style, StyledValue, WriteColor};
use core::fmt::{self, Binary, Debug, Display, Formatter, LowerExp, LowerHex, Octal, Pointer, UpperExp, UpperHex};
use std::alloc::Layout;

pub unsafe fn alloc(_: Layout) -> *mut u8 {
    assert!(false, "heap memory is allocated");
    core::ptr::null_mut()
}
pub unsafe fn realloc(_: *mut u8, _: Layout, _: usize) -> *mut u8 {
    assert!(false, "heap memory is allocated");
    core::ptr::null_mut()
}
macro_rules! no_alloc { ($($(#[$m:meta])* fn $n:ident() $b:block)*) => { world! { $(
    #[kani::stub(std::alloc::alloc, crate::c20::alloc)]
    #[kani::stub(std::alloc::alloc_zeroed, crate::c20::alloc)]
    #[kani::stub(std::alloc::realloc, crate::c20::realloc)]
    $(#[$m])*
    fn $n() $b
)* } } }

extern "C" {
    fn malloc(n: usize) -> *mut u8;
}
/// any bytes of any length, without using Rust's allocator
fn any_bytes() -> &'static [u8] {
    let len: usize = kani::any();
    kani::assume(len <= if cfg!(colorz_wide) { 20 } else { 1 << 40 });
    unsafe { core::slice::from_raw_parts(malloc(len + 1), len) }
}

/// a value that does not allocate, in every formatting trait
struct Value;
macro_rules! value { ($($t:ident)*) => { $( impl $t for Value {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("v") }
} )* } }
value! { Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex }

fn written<C: WriteColor>(c: C) {
    let (layer, escape) = (any_index(3) as u8, kani::any());
    let _ = with(&mut Count(0), |f| write(c, layer, escape, f));
}

no_alloc! {
    #[kani::should_panic]
    fn control_box() { let b = Box::new(kani::any::<u8>()); let _ = *b; }
    #[kani::should_panic]
    fn control_vec() { let mut v = Vec::new(); v.push(kani::any::<u8>()); }
    #[kani::should_panic]
    fn control_zeroed() { let v = vec![0u8; any_index(9) + 1]; let _ = v[0]; }
    #[kani::should_panic]
    fn control_format() { let _ = std::fmt::format(format_args!("{}", any_index(10))); }

    fn decision() {
        any_world();
        let mode = any_mode();
        set_coloring_mode(mode);
        let default = if cfg!(feature = "std") { any_fixed_stream() } else { any_stream() };
        set_default_stream(default);
        let (stream, kinds) = (any_stream_opt(), [any_kind(), any_kind(), any_kind()]);
        // detecting a stream for the first time is not part of the property
        kani::assume(!cfg!(feature = "scn") && !cfg!(feature = "std") || mode != Mode::Detect || stream != Some(Stream::Stdout) && stream != Some(Stream::Stderr));
        let _ = should_color(stream, &kinds);
        let _ = (get_coloring_mode(), get_default_stream());
    }
    fn parsing() {
        let s = any_bytes();
        let _ = Mode::from_ascii_bytes(s);
        let _ = Stream::from_ascii_bytes(s);
        let s = unsafe { core::str::from_utf8_unchecked(s) };
        match kani::any::<u8>() {
            0 => { let _ = s.parse::<Mode>(); }
            1 => { let _ = s.parse::<Stream>(); }
            _ => { let _ = s.parse::<Color>(); }
        }
    }
    fn named_colors() {
        match kani::any::<u8>() {
            0 => written(ANSI[any_index(17)].0),
            1 => written(XTERM[kani::any::<u8>() as usize]),
            2 => written(CSS[any_index(147)].0),
            3 => written(ansi::Red),
            4 => written(xterm::Red),
            5 => written(css::Red),
            _ => written(Rgb::<1, 20, 255>),
        }
    }
    fn styles() {
        let (style, _) = any_style::<O, O, O>();
        match kani::any::<u8>() {
            0 => { let _ = length(|f| Display::fmt(&style.apply(), f)); }
            1 => { let _ = length(|f| Display::fmt(&style.clear(), f)); }
            2 => { let _ = length(|f| Debug::fmt(&style.apply(), f)); }
            3 => { let _ = length(|f| Debug::fmt(&style.clear(), f)); }
            _ => { let _ = length(|f| Display::fmt(&Style::clear_all(), f)); }
        }
    }
}
fn value(write: impl Fn(&StyledValue<Value, G>, &mut Formatter<'_>) -> fmt::Result) {
    set_coloring_mode(any_mode());
    let style = Style::new().fg(G(0)).with(any_effect());
    let x = StyledValue::new(Value, style, Some(any_fixed_stream()));
    let _ = length(|f| write(&x, f));
}
macro_rules! values { ($($n:ident $e:expr;)*) => { no_alloc! { $( fn $n() { value($e) } )* } } }
values! {
    value_display Display::fmt;
    value_debug Debug::fmt;
    value_binary Binary::fmt;
    value_octal Octal::fmt;
    value_pointer Pointer::fmt;
    value_lower_exp LowerExp::fmt;
    value_upper_exp UpperExp::fmt;
    value_lower_hex LowerHex::fmt;
    value_upper_hex UpperHex::fmt;
    value_fmt_with |x, f| x.fmt_with(f, |_, f| f.write_str("w"));
}
macro_rules! no_alloc_text { ($(fn $n:ident() $b:block)*) => { proof! { unwind 26: $(
    #[kani::stub(std::alloc::alloc, crate::c20::alloc)]
    #[kani::stub(std::alloc::alloc_zeroed, crate::c20::alloc)]
    #[kani::stub(std::alloc::realloc, crate::c20::realloc)]
    #[kani::stub(core::str::validations::run_utf8_validation, crate::common::ascii)]
    fn $n() $b
)* } } }
no_alloc_text! {
    fn rgb_colors() {
        written(RgbColor { red: kani::any(), green: kani::any(), blue: kani::any() });
    }
    fn dynamic_colors() {
        let (a, n, c) = (any_index(17), kani::any::<u8>(), any_index(147));
        written(match kani::any::<u8>() {
            0 => Color::Ansi(ANSI[a].0),
            1 => Color::Xterm(XTERM[n as usize]),
            _ => Color::Css(CSS[c].0),
        });
    }
}
