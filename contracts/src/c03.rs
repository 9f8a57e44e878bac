//! C03: applying a style sets exactly the style's attributes.
use crate::common::*;
use core::fmt::{Debug, Display};

/// {any terminal state} apply {attribute k has the style's value if the style has one, else its old value}
fn apply<F: Layer, B: Layer, U: Layer>() {
    apply_by::<F, B, U>(false)
}
fn apply_by<F: Layer, B: Layer, U: Layer>(debug: bool) {
    let (style, w) = any_style::<F, B, U>();
    let (k, v) = any_attr();
    let mut t = Term::new(k, v);
    let r = with(&mut t, |f| if debug { Debug::fmt(&style.apply(), f) } else { Display::fmt(&style.apply(), f) });
    assert!(r.is_ok(), "apply reports success");
    assert!(t.well_formed(), "apply writes well formed SGR with known parameters");
    kani::cover!(w.m.count_ones() > 3 && k == 2 && w.underlined());
    kani::cover!(w.m == 0 && t.v == v);
    assert!(t.v == w.applied(k, v), "apply sets exactly the style's attributes");
}

combos! { apply:
    apply_ooo O, O, O; apply_oao O, A, O; apply_ono O, N, O;
    apply_aoo A, O, O; apply_aao A, A, O; apply_ano A, N, O;
    apply_noo N, O, O; apply_nao N, A, O; apply_nno N, N, O;
    // the other typings of the underline colour, and nested options
    apply_ana A, N, A; apply_nnn N, N, N; apply_ooa O, O, A; apply_nested Option<O>, Option<N>, Option<A>;
}

proof! {
    /// the other trait the result of `apply` has
    fn debug() { apply_by::<O, O, O>(true) }
    /// the code of an effect, by itself and as an escape sequence
    fn effect_codes() {
        let (i, p) = (any_index(13), kani::any());
        let (mut args, mut escape) = (At::new(p), At::new(p));
        args.dec(SET[i]);
        escape.str("\x1b[").dec(SET[i]).str("m");
        assert!(At::text(p, ALL[i].apply_args()).same(&args), "an effect's code is the standard one");
        assert!(At::text(p, ALL[i].apply_escape()).same(&escape), "an effect's escape sequence is the standard one");
    }
}
