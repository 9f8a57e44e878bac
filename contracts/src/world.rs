//! The world outside the crate, as ghost state: memory cells of atomics, terminals, terminal
//! levels and the environment. The stand-ins below are the assumed contracts on the standard
//! library and on `supports-color` (see the trusted base in /verif/DESIGN.md).
use crate::common::*;
use colorz::mode::{set_coloring_mode, set_default_stream, should_color, Mode, Stream};
use core::ptr;
use std::env::VarError;
use std::ffi::{OsStr, OsString};

/// All ghost state lives in one static with a unique initial content. (Kani 0.68 gives constants
/// the address of a static with the same initial bytes, so a harness must not change the value of
/// a static whose content some constant shares; for the same reason the cells of the crate's own
/// atomics are kept here, not in place.)
pub struct World {
    pub magic: u64,
    /// is stdout / stderr a terminal, its level, and how often has that been asked
    pub tty: [bool; 2],
    pub level: [u8; 2],
    pub asked: [u8; 2],
    /// NO_COLOR, ALWAYS_COLOR, CLICOLOR_FORCE, FORCE_COLOR: see `env`
    pub env: [Option<Var>; 4],
    /// settings in force at some time during the call under proof
    pub modes: [bool; 3],
    pub defaults: [bool; 4],
    /// the last ones that were set
    pub mode: u8,
    pub default: u8,
}
pub static mut W: World = World {
    magic: 0x636f_6c6f_727a_5721,
    tty: [false; 2],
    level: [0; 2],
    asked: [0; 2],
    env: [None; 4],
    modes: [false; 3],
    defaults: [false; 4],
    mode: 0,
    default: 0,
};

/// cells of the atomics used so far: the atomic and its value
struct Cells {
    magic: u64,
    keys: [*const (); CELLS],
    vals: [u64; CELLS],
}
const CELLS: usize = 5;
static mut C: Cells = Cells { magic: 0x6365_6c6c_735f_5721, keys: [ptr::null(); CELLS], vals: [0x5a5a_1234; CELLS] };
/// the ghost cell of an atomic, which starts with the atomic's initial value
fn slot(a: *const (), initial: u64) -> usize {
    unsafe {
        let mut i = 0;
        while i < CELLS {
            if ptr::eq(C.keys[i], a) {
                return i;
            }
            if C.keys[i].is_null() {
                C.keys[i] = a;
                C.vals[i] = initial;
                return i;
            }
            i += 1;
        }
        panic!("LIMIT: more atomics than the proof covers")
    }
}
fn get(n: usize) -> u64 {
    unsafe { C.vals[n] }
}
fn put(n: usize, v: u64) {
    let mut i = 0;
    while i < CELLS {
        if i == n {
            unsafe { C.vals[i] = v };
        }
        i += 1;
    }
}

/// The memory at some moment of a call: what another thread finds when it runs while the call is
/// at that moment.
struct Moment {
    magic: u64,
    keys: [*const (); CELLS],
    vals: [u64; CELLS],
    armed: bool,
}
static mut MOMENT: Moment = Moment { magic: 0x6d6f_6d65_6e74_5721, keys: [ptr::null(); CELLS], vals: [0x5a5a_4321; CELLS], armed: false };
fn pause() {
    unsafe {
        if MOMENT.armed && kani::any() {
            MOMENT.keys = C.keys;
            MOMENT.vals = C.vals;
            MOMENT.armed = false;
        }
    }
}
/// runs `f` and leaves memory as it is at some moment before, during or after it
pub fn part_of(f: impl FnOnce()) -> bool {
    unsafe {
        MOMENT.armed = true;
        f();
        if !MOMENT.armed {
            C.keys = MOMENT.keys;
            C.vals = MOMENT.vals;
        }
        !core::mem::replace(&mut MOMENT.armed, false)
    }
}

/// What other threads may do between any two atomic accesses of the call under proof: through the
/// public API, set the mode, set the default stream, cause detections. One such step covers any
/// number of them, as later settings overwrite earlier ones and detections do not depend on them.
pub struct Others {
    magic: u64,
    pub mask: u8,
}
pub static mut OTHERS: Others = Others { magic: 0x6f74_6865_7273_5721, mask: 0 };
pub const MODE: u8 = 1;
pub const DEFAULT: u8 = 2;
pub const DETECT: u8 = 4;
pub const MODES: [Mode; 3] = [Mode::Detect, Mode::Always, Mode::Never];
pub const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];
pub fn set_mode() {
    let i = any_index(3);
    unsafe {
        W.modes[i] = true;
        W.mode = i as u8;
    }
    set_coloring_mode(MODES[i]);
}
pub fn set_default() {
    let i = any_index(4);
    unsafe {
        W.defaults[i] = true;
        W.default = i as u8;
    }
    set_default_stream(STREAMS[i]);
}
/// another thread acts, if the proof is about that
pub fn interfere() {
    let others = unsafe { OTHERS.mask };
    if others != 0 {
        unsafe { OTHERS.mask = 0 };
        if others & MODE != 0 && kani::any() {
            set_mode();
        }
        if others & DEFAULT != 0 && kani::any() {
            set_default();
        }
        if others & DETECT != 0 && kani::any() {
            let _ = should_color(Some(any_stream()), &[]);
        }
        unsafe { OTHERS.mask = others };
    }
}

/// Stand-ins for the atomic operations on one type
macro_rules! atomics { ($($m:ident $t:ident $a:ident $of:expr, $extra:tt;)*) => { $( pub mod $m {
    use super::*;
    use core::sync::atomic::{Ordering, $a};
    fn at(a: &$a) -> usize {
        interfere();
        pause();
        slot(a as *const $a as *const (), unsafe { *a.as_ptr() } as u64)
    }
    fn of(x: u64) -> $t { $of(x) }
    fn update(a: &$a, f: impl FnOnce($t) -> $t) -> $t {
        let c = at(a);
        let old = of(get(c));
        put(c, f(old) as u64);
        old
    }
    pub fn load(a: &$a, _: Ordering) -> $t { of(get(at(a))) }
    pub fn store(a: &$a, v: $t, _: Ordering) { update(a, |_| v); }
    pub fn swap(a: &$a, v: $t, _: Ordering) -> $t { update(a, |_| v) }
    pub fn fetch_or(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x | v) }
    pub fn fetch_and(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x & v) }
    pub fn fetch_xor(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x ^ v) }
    pub fn fetch_nand(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| !(x & v)) }
    pub fn compare_exchange(a: &$a, from: $t, to: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
        let c = at(a);
        let old = of(get(c));
        if old == from {
            put(c, to as u64);
            Ok(old)
        } else {
            Err(old)
        }
    }
    /// may fail for no reason (once)
    pub fn compare_exchange_weak(a: &$a, from: $t, to: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
        if unsafe { !SPURIOUS.1 } && kani::any() {
            unsafe { SPURIOUS.1 = true };
            return Err(load(a, p));
        }
        compare_exchange(a, from, to, o, p)
    }
    atomics! { @ $extra $a $t }
} )* };
    (@ bool $a:ident $t:ident) => {
        pub fn fetch_not(a: &$a, _: Ordering) -> $t { update(a, |x| !x) }
    };
    (@ int $a:ident $t:ident) => {
        pub fn fetch_add(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x.wrapping_add(v)) }
        pub fn fetch_sub(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x.wrapping_sub(v)) }
        pub fn fetch_max(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x.max(v)) }
        pub fn fetch_min(a: &$a, v: $t, _: Ordering) -> $t { update(a, |x| x.min(v)) }
    };
}
static mut SPURIOUS: (u64, bool) = (0x7370_7572_696f_5721, false);
atomics! {
    a8 u8 AtomicU8 |x| x as u8, int;
    a16 u16 AtomicU16 |x| x as u16, int;
    a32 u32 AtomicU32 |x| x as u32, int;
    a64 u64 AtomicU64 |x| x, int;
    asize usize AtomicUsize |x| x as usize, int;
    i8 i8 AtomicI8 |x| x as i8, int;
    i32 i32 AtomicI32 |x| x as i32, int;
    abool bool AtomicBool |x| x != 0, bool;
}
fn ask(i: usize) -> bool {
    unsafe {
        W.asked[i] = W.asked[i].saturating_add(1);
        W.tty[i]
    }
}
/// The handles carry nothing that is ever looked at: every use of them is a stand-in, too.
static HANDLE: u64 = 0x6861_6e64_6c65_5721;
pub fn stdout() -> std::io::Stdout {
    unsafe { core::mem::transmute::<&'static u64, std::io::Stdout>(&HANDLE) }
}
pub fn stderr() -> std::io::Stderr {
    unsafe { core::mem::transmute::<&'static u64, std::io::Stderr>(&HANDLE) }
}
pub fn stdout_tty(_: &std::io::Stdout) -> bool {
    ask(0)
}
pub fn stderr_tty(_: &std::io::Stderr) -> bool {
    ask(1)
}
pub fn stdout_lock_tty(_: &std::io::StdoutLock<'static>) -> bool {
    ask(0)
}
pub fn stderr_lock_tty(_: &std::io::StderrLock<'static>) -> bool {
    ask(1)
}

/// the level (0-3) `supports-color` computes for a stream, before it is turned into capabilities
#[cfg(feature = "scn")]
pub fn level(s: supports_color::Stream) -> usize {
    let i = match s {
        supports_color::Stream::Stdout => 0,
        supports_color::Stream::Stderr => 1,
    };
    ask(i);
    unsafe { W.level[i] as usize }
}

/// The value of an environment variable: any bytes of any length. (Wide builds, used when the code
/// loops over the whole value: of at most LEAD bytes.)
#[derive(Clone, Copy)]
pub struct Var {
    pub len: usize,
    pub lead: [u8; LEAD],
    /// is it valid Unicode? (longer than LEAD bytes: only values with ASCII in front are)
    pub unicode: bool,
}
pub const LEAD: usize = 8;
impl Var {
    pub fn any() -> Option<Var> {
        if kani::any() {
            let v = Var { len: kani::any(), lead: kani::any(), unicode: kani::any() };
            kani::assume(v.len <= if cfg!(colorz_wide) { LEAD } else { 1 << 40 });
            let mut ascii = true;
            let mut i = 0;
            while i < LEAD {
                ascii &= v.lead[i] < 0x80;
                kani::assume(v.lead[i] != 0);
                i += 1;
            }
            kani::assume(if v.len <= LEAD { v.unicode == crate::c08::utf8::<LEAD>(&v.lead[..v.len]) } else { ascii || !v.unicode });
            Some(v)
        } else {
            None
        }
    }
    pub fn is_0(self) -> bool {
        self.len == 1 && self.lead[0] == b'0'
    }
    /// as the owner of memory of its length
    fn bytes(self) -> Vec<u8> {
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(self.len + LEAD, 1));
            *(p as *mut [u8; LEAD]) = self.lead;
            Vec::from_raw_parts(p, self.len, self.len + LEAD)
        }
    }
}
pub const NAMES: [&[u8]; 4] = [b"NO_COLOR", b"ALWAYS_COLOR", b"CLICOLOR_FORCE", b"FORCE_COLOR"];
/// the variable of the ghost environment with this name
fn variable(key: &OsStr) -> Option<Var> {
    let i = match key.as_encoded_bytes() {
        b"NO_COLOR" => 0,
        b"ALWAYS_COLOR" => 1,
        b"CLICOLOR_FORCE" => 2,
        b"FORCE_COLOR" => 3,
        _ => panic!("LIMIT: reads another environment variable"),
    };
    unsafe { W.env[i] }
}
/// `std::env::var_os` in the ghost environment
pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
    let v = variable(key.as_ref())?;
    Some(unsafe { OsString::from_encoded_bytes_unchecked(v.bytes()) })
}
/// `std::env::var` in the ghost environment
pub fn var<K: AsRef<OsStr>>(key: K) -> Result<String, VarError> {
    let Some(v) = variable(key.as_ref()) else { return Err(VarError::NotPresent) };
    if v.unicode {
        Ok(unsafe { String::from_utf8_unchecked(v.bytes()) })
    } else {
        Err(VarError::NotUnicode(unsafe { OsString::from_encoded_bytes_unchecked(v.bytes()) }))
    }
}

/// Declares proofs that run in the ghost world
macro_rules! world {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => { proof! { $(
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::load, crate::world::a8::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::store, crate::world::a8::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::swap, crate::world::a8::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_or, crate::world::a8::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_and, crate::world::a8::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_xor, crate::world::a8::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_nand, crate::world::a8::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::compare_exchange, crate::world::a8::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::compare_exchange_weak, crate::world::a8::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_add, crate::world::a8::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_sub, crate::world::a8::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_max, crate::world::a8::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u8>::fetch_min, crate::world::a8::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::load, crate::world::a16::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::store, crate::world::a16::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::swap, crate::world::a16::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_or, crate::world::a16::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_and, crate::world::a16::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_xor, crate::world::a16::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_nand, crate::world::a16::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::compare_exchange, crate::world::a16::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::compare_exchange_weak, crate::world::a16::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_add, crate::world::a16::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_sub, crate::world::a16::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_max, crate::world::a16::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u16>::fetch_min, crate::world::a16::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::load, crate::world::a32::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::store, crate::world::a32::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::swap, crate::world::a32::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_or, crate::world::a32::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_and, crate::world::a32::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_xor, crate::world::a32::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_nand, crate::world::a32::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::compare_exchange, crate::world::a32::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::compare_exchange_weak, crate::world::a32::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_add, crate::world::a32::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_sub, crate::world::a32::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_max, crate::world::a32::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u32>::fetch_min, crate::world::a32::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::load, crate::world::a64::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::store, crate::world::a64::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::swap, crate::world::a64::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_or, crate::world::a64::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_and, crate::world::a64::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_xor, crate::world::a64::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_nand, crate::world::a64::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::compare_exchange, crate::world::a64::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::compare_exchange_weak, crate::world::a64::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_add, crate::world::a64::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_sub, crate::world::a64::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_max, crate::world::a64::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<u64>::fetch_min, crate::world::a64::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::load, crate::world::asize::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::store, crate::world::asize::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::swap, crate::world::asize::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_or, crate::world::asize::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_and, crate::world::asize::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_xor, crate::world::asize::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_nand, crate::world::asize::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::compare_exchange, crate::world::asize::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::compare_exchange_weak, crate::world::asize::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_add, crate::world::asize::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_sub, crate::world::asize::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_max, crate::world::asize::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<usize>::fetch_min, crate::world::asize::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::load, crate::world::i8::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::store, crate::world::i8::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::swap, crate::world::i8::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_or, crate::world::i8::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_and, crate::world::i8::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_xor, crate::world::i8::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_nand, crate::world::i8::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::compare_exchange, crate::world::i8::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::compare_exchange_weak, crate::world::i8::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_add, crate::world::i8::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_sub, crate::world::i8::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_max, crate::world::i8::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i8>::fetch_min, crate::world::i8::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::load, crate::world::i32::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::store, crate::world::i32::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::swap, crate::world::i32::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_or, crate::world::i32::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_and, crate::world::i32::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_xor, crate::world::i32::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_nand, crate::world::i32::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::compare_exchange, crate::world::i32::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::compare_exchange_weak, crate::world::i32::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_add, crate::world::i32::fetch_add)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_sub, crate::world::i32::fetch_sub)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_max, crate::world::i32::fetch_max)]
        #[kanitool::stub(core::sync::atomic::Atomic::<i32>::fetch_min, crate::world::i32::fetch_min)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::load, crate::world::abool::load)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::store, crate::world::abool::store)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::swap, crate::world::abool::swap)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::fetch_or, crate::world::abool::fetch_or)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::fetch_and, crate::world::abool::fetch_and)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::fetch_xor, crate::world::abool::fetch_xor)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::fetch_nand, crate::world::abool::fetch_nand)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::compare_exchange, crate::world::abool::compare_exchange)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::compare_exchange_weak, crate::world::abool::compare_exchange_weak)]
        #[kanitool::stub(core::sync::atomic::Atomic::<bool>::fetch_not, crate::world::abool::fetch_not)]
        #[kanitool::stub(<std::io::Stdout as std::io::IsTerminal>::is_terminal, crate::world::stdout_tty)]
        #[kanitool::stub(<std::io::Stderr as std::io::IsTerminal>::is_terminal, crate::world::stderr_tty)]
        #[kanitool::stub(std::io::stdout, crate::world::stdout)]
        #[kanitool::stub(std::io::stderr, crate::world::stderr)]
        #[kanitool::stub(std::env::var_os, crate::world::var_os)]
        #[kanitool::stub(std::env::var, crate::world::var)]
        #[cfg_attr(feature = "scn", kanitool::stub(supports_color::supports_color, crate::world::level))]
        $(#[$m])*
        fn $n() $b
    )* } };
}
