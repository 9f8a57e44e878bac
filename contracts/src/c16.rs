//! C16: stream detection uses the right stream, is remembered, and honours colour kinds.
use crate::c02::*;
use crate::common::*;
use crate::world::W;
use colorz::mode::*;
use colorz::Style;

fn stream_of(i: usize) -> Stream {
    if i == 0 {
        Stream::Stdout
    } else {
        Stream::Stderr
    }
}
/// a decision for standard stream `i`, asked for explicitly or as the default
fn decide(i: usize, kinds: &[ColorKind]) -> bool {
    set_coloring_mode(Mode::Detect);
    if kani::any() {
        set_default_stream(any_stream());
        should_color(Some(stream_of(i)), kinds)
    } else {
        set_default_stream(stream_of(i));
        should_color(None, kinds)
    }
}
/// other calls of the crate in between, which say nothing about a standard stream
fn between() {
    set_coloring_mode(any_mode());
    set_default_stream(any_stream());
    let _ = (get_coloring_mode(), get_default_stream());
    if get_coloring_mode() != Mode::Detect || kani::any() {
        let fixed = if get_coloring_mode() != Mode::Detect { any_stream() } else { any_fixed_stream() };
        let _ = should_color(Some(fixed), &[any_kind()]);
    }
    any_world();
}
world! {
    /// {any capabilities, each stream detected before or not, in any order, with capabilities that
    /// have changed since} decide {the answer of the stream's own first detection}.
    /// The state afterwards is again of the form this starts from, so by induction the statement
    /// holds after every history of decisions.
    fn detection() {
        let mut known: [Option<Capability>; 2] = [None; 2];
        let first = any_index(2);
        let mut n = 0;
        while n < 2 {
            // an earlier decision for one stream, then for the other
            let i = if n == 0 { first } else { 1 - first };
            any_world();
            if kani::any() {
                let kinds = &[any_kind()];
                known[i] = Some(capability(i));
                let got = decide(i, kinds);
                assert!(got == capability(i).supports(kinds), "a first decision is that of the stream's own capability");
            }
            n += 1;
        }
        between();
        unsafe { W.asked = [0; 2] };
        let i = any_index(2);
        let kinds = &[any_kind(), any_kind(), any_kind()];
        let got = decide(i, kinds);
        let want = known[i].unwrap_or(capability(i)).supports(kinds);
        kani::cover!(known[0].is_some() && known[1].is_some() && got != capability(i).supports(kinds));
        kani::cover!(known[i].is_none() && known[1 - i].is_some() && got);
        assert!(got == want, "a stream is judged by its own first detection");
        unsafe { assert!(W.asked[1 - i] == 0, "the other stream is not asked") };
        // the state is of the same form again
        let first = known[i].unwrap_or(capability(i));
        any_world();
        let kinds = &[any_kind()];
        assert!(decide(i, kinds) == first.supports(kinds), "an answer is remembered, however often it is asked for");
    }
    /// modes and fixed streams need no detection, and do not spoil later ones
    fn undetected() {
        any_world();
        set_coloring_mode(any_mode());
        set_default_stream(any_fixed_stream());
        let _ = should_color(if kani::any() { Some(any_fixed_stream()) } else { None }, &[any_kind()]);
        any_world();
        let i = any_index(2);
        let kinds = &[any_kind()];
        assert!(decide(i, kinds) == supports(i, kinds), "a stream is judged by its own capability");
    }
    /// a style asks for the kinds of its three layers
    fn style() {
        any_world();
        set_coloring_mode(Mode::Detect);
        let (fg, bg, ul) = (O::any(), O::any(), O::any());
        let style = Style::new().fg(fg).bg(bg).underline_color(ul).effect_flags(flags(any_mask()));
        let i = any_index(2);
        assert!(style.should_color(stream_of(i)) == supports(i, &[kind(fg), kind(bg), kind(ul)]), "a style is judged by the kinds of its colours");
    }
}
