//! C15: environment variables select the mode as documented.
use crate::common::*;
use crate::world::{Var, LEAD, W};
use colorz::mode::*;
use std::ffi::OsString;

pub fn any_env() -> [Option<Var>; 4] {
    let env = [Var::any(), Var::any(), Var::any(), Var::any()];
    unsafe { W.env = env };
    #[cfg(test)]
    really(&env);
    env
}
/// in a replay of a counterexample, the environment is the real one
#[cfg(test)]
fn really(env: &[Option<Var>; 4]) {
    for (name, var) in crate::world::NAMES.iter().zip(env) {
        let name = std::str::from_utf8(name).unwrap();
        match var {
            None => std::env::remove_var(name),
            Some(v) => {
                let mut bytes = v.lead.to_vec();
                bytes.resize(v.len.min(LEAD + 1), if v.unicode { b'x' } else { 0xff });
                std::env::set_var(name, unsafe { OsString::from_encoded_bytes_unchecked(bytes) });
            }
        }
    }
}
fn spec(env: [Option<Var>; 4]) -> Option<Mode> {
    let on = |v: Option<Var>| match v {
        Some(v) => !v.is_0(),
        None => false,
    };
    if on(env[0]) {
        Some(Mode::Never)
    } else if on(env[1]) || on(env[2]) || on(env[3]) {
        Some(Mode::Always)
    } else {
        None
    }
}
world! {
    fn from_env() {
        let env = any_env();
        let got = Mode::from_env();
        kani::cover!(got.is_none() && env[0].is_some() && env[2].is_some());
        kani::cover!(env[1].is_some() && got == Some(Mode::Always) && env[3].is_none());
        assert!(got == spec(env), "the mode the documentation gives for the environment");
    }
    fn set_from_env() {
        let env = any_env();
        let (mode, default) = (any_mode(), any_stream());
        set_coloring_mode(mode);
        set_default_stream(default);
        let before = get_coloring_mode();
        set_coloring_mode_from_env();
        let want = if cfg!(feature = "strip") { Mode::Never } else { spec(env).unwrap_or(mode) };
        assert!(get_coloring_mode() == want, "sets exactly the mode the environment gives, or leaves it");
        assert!(get_default_stream() == default, "leaves the default stream");
    }
}
