//! C18: a style is plain exactly when it writes nothing.
use crate::common::*;
use colorz::{Colorize, Style};
use core::fmt::Display;

fn plain<F: Layer, B: Layer, U: Layer>() {
    let (style, w) = any_style::<F, B, U>();
    let a = length(|f| Display::fmt(&style.apply(), f));
    let c = length(|f| Display::fmt(&style.clear(), f));
    assert!(style.is_plain() == w.plain(), "is_plain iff no foreground, background or effect");
    assert!(style.is_plain() == (a == 0), "plain iff apply writes nothing");
    assert!(style.is_plain() == (c == 0), "plain iff clear writes nothing");
    kani::cover!(a > 0);
}

combos! { plain:
    plain_ooo O, O, O; plain_oao O, A, O; plain_ono O, N, O;
    plain_aoo A, O, O; plain_aao A, A, O; plain_ano A, N, O;
    plain_noo N, O, O; plain_nao N, A, O; plain_nno N, N, O;
    plain_nna N, N, A; plain_nnn N, N, N; plain_ooa O, O, A; plain_nested Option<O>, Option<N>, Option<A>;
}

proof! {
    fn fresh() {
        let x: u32 = kani::any();
        assert!(Style::new().is_plain(), "a new style is plain");
        assert!(Style::default().is_plain(), "the default style is plain");
        assert!(Style::new().into_runtime_style().is_plain(), "a new runtime style is plain");
        assert!(Style::new().const_into_runtime_style().is_plain(), "a new const runtime style is plain");
        assert!(x.into_style().style.is_plain() && Colorize::style(&x).style.is_plain(), "an unstyled value is plain");
        assert!(x.into_style().into_style().style.is_plain() && x.into_style().style().style.is_plain(), "a rewrapped value is plain");
    }
}
world! {
    /// a plain style leaves output byte-for-byte the value's own, whatever the settings
    fn plain_output() {
        let (style, _) = any_style::<O, O, O>();
        kani::assume(style.is_plain());
        colorz::mode::set_coloring_mode(any_mode());
        let s = if kani::any() { "" } else { "value" };
        let p: u8 = kani::any();
        let mut a = At::new(p);
        let r = plainly(&mut a, |f| Display::fmt(&s.into_style_with(style).stream(any_fixed_stream()), f));
        let e = At::text(p, s);
        assert!(r.is_ok() && a.len == e.len && a.b == e.b, "a plain style adds nothing");
    }
}
