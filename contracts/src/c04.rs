//! C04: clearing a style undoes exactly what applying it did.
use crate::common::*;
use colorz::Style;
use core::fmt::{Debug, Display};

/// {any terminal state} clear {attribute k is default if the style touches it (or an attribute
/// with the same off-code), else its old value}
fn clear<F: Layer, B: Layer, U: Layer>() {
    clear_by::<F, B, U>(false)
}
fn clear_by<F: Layer, B: Layer, U: Layer>(debug: bool) {
    let (style, w) = any_style::<F, B, U>();
    let (k, v) = any_attr();
    let mut t = Term::new(k, v);
    let r = with(&mut t, |f| if debug { Debug::fmt(&style.clear(), f) } else { Display::fmt(&style.clear(), f) });
    assert!(r.is_ok(), "clear reports success");
    assert!(t.well_formed(), "clear writes well formed SGR with known parameters");
    let touched = w.clears(k);
    kani::cover!(w.m.count_ones() > 3 && touched);
    kani::cover!(!touched && t.v == v && v != 0);
    assert!(t.v == if touched { 0 } else { v }, "clear resets exactly the style's attributes");
}

combos! { clear:
    clear_ooo O, O, O; clear_oao O, A, O; clear_ono O, N, O;
    clear_aoo A, O, O; clear_aao A, A, O; clear_ano A, N, O;
    clear_noo N, O, O; clear_nao N, A, O; clear_nno N, N, O;
    clear_ana A, N, A; clear_nnn N, N, N; clear_ooa O, O, A; clear_nested Option<O>, Option<N>, Option<A>;
}

proof! {
    /// the lemma `clear after apply restores every attribute the style sets`, on the composed calls
    fn round_trip() {
        let (style, w) = any_style::<O, N, O>();
        kani::assume(w.m.count_ones() <= 2);
        let (k, v) = any_attr();
        let mut t = Term::new(k, v);
        let _ = with(&mut t, |f| Display::fmt(&style.apply(), f));
        let set = t.v != v;
        let _ = with(&mut t, |f| Display::fmt(&style.clear(), f));
        assert!(!set || t.v == 0, "clear undoes apply");
    }
    fn clear_all() {
        let (k, v) = any_attr();
        let mut t = Term::new(k, v);
        let debug: bool = kani::any();
        let r = with(&mut t, |f| if debug { Debug::fmt(&Style::clear_all(), f) } else { Display::fmt(&Style::clear_all(), f) });
        assert!(r.is_ok() && t.well_formed() && t.v == 0, "clear_all resets every attribute");
        let p: u8 = kani::any();
        let mut a = At::new(p);
        let _ = with(&mut a, |f| Display::fmt(&Style::clear_all(), f));
        let e = At::text(p, "\x1b[0m");
        assert!(a.len == e.len && a.b == e.b, "clear_all is a single reset sequence");
    }
}

proof! {
    /// the other trait the result of `clear` has
    fn debug() { clear_by::<O, O, O>(true) }
    /// the off-code of an effect, by itself and as an escape sequence
    fn effect_codes() {
        let (i, p) = (any_index(13), kani::any());
        let (mut args, mut escape) = (At::new(p), At::new(p));
        args.dec(CLR[i]);
        escape.str("\x1b[").dec(CLR[i]).str("m");
        assert!(At::text(p, ALL[i].clear_args()).same(&args), "an effect's off-code is the standard one");
        assert!(At::text(p, ALL[i].clear_escape()).same(&escape), "an effect's off sequence is the standard one");
    }
}
