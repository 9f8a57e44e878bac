//! Exhaustive native runs over finite domains, standing in where Kani misreads compiled constants
//! (labelled bounded in the evidence). Prints `MISMATCH ...` for each difference and the number of
//! cases.
#[path = "../../contracts/src/tables.rs"]
#[macro_use]
mod tables;

use colorz::{Color, ColorSpec, WriteColor};
use std::fmt::{self, Display, Formatter};

struct Run {
    cases: u32,
}
impl Run {
    fn same(&mut self, what: &str, got: &str, want: &str) {
        self.cases += 1;
        if got != want {
            println!("MISMATCH {what}: {got:?} instead of {want:?}");
        }
    }
    fn agree<T: PartialEq + fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.cases += 1;
        if got != want {
            println!("MISMATCH {what}: {got:?} instead of {want:?}");
        }
    }
}

struct Written<C>(C, usize);
impl<C: WriteColor> Display for Written<C> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.1 {
            0 => self.0.fmt_foreground_args(f),
            1 => self.0.fmt_background_args(f),
            2 => self.0.fmt_underline_args(f),
            3 => self.0.fmt_foreground(f),
            4 => self.0.fmt_background(f),
            _ => self.0.fmt_underline(f),
        }
    }
}

/// the six texts of a colour: arguments and escapes for foreground, background, underline
fn spec<C: ColorSpec>(run: &mut Run, name: &str, c: C, args: [String; 3]) {
    let got = [
        c.foreground_args(), c.background_args(), c.underline_args(),
        c.foreground_escape(), c.background_escape(), c.underline_escape(),
    ];
    for i in 0..6 {
        let want = if i < 3 { args[i].clone() } else { format!("\x1b[{}m", args[i - 3]) };
        run.same(name, got[i], &want);
    }
    writes(run, name, c, args);
}
fn writes<C: WriteColor>(run: &mut Run, name: &str, c: C, args: [String; 3]) {
    for i in 0..6 {
        let want = if i < 3 { args[i].clone() } else { format!("\x1b[{}m", args[i - 3]) };
        run.same(name, &Written(c, i).to_string(), &want);
    }
}

macro_rules! ansi { ($run:ident; $(($n:ident $fg:literal $bg:literal $x:literal))*) => { $({
    let args = || [format!("{}", $fg), format!("{}", $bg), format!("58;5;{}", $x)];
    spec(&mut $run, concat!("ansi::", stringify!($n)), colorz::ansi::$n, args());
    spec(&mut $run, concat!("AnsiColor::", stringify!($n)), colorz::ansi::AnsiColor::$n, args());
    writes(&mut $run, concat!("Color of ansi::", stringify!($n)), Color::from(colorz::ansi::$n), args());
})* } }
macro_rules! xterm { ($run:ident; $(($n:ident $c:literal))*) => { $({
    use colorz::xterm::{self, XtermColor};
    let args = || [3, 4, 5].map(|l| format!("{l}8;5;{}", $c));
    spec(&mut $run, concat!("xterm::", stringify!($n)), xterm::$n, args());
    spec(&mut $run, concat!("XtermColor::", stringify!($n)), XtermColor::$n, args());
    writes(&mut $run, concat!("Color of xterm::", stringify!($n)), Color::from(xterm::$n), args());
    $run.same(concat!("xterm::", stringify!($n), "::ARGS"), xterm::$n::ARGS, &format!("5;{}", $c));
    $run.same(concat!("XtermColor::", stringify!($n), ".args()"), XtermColor::$n.args(), &format!("5;{}", $c));
})* } }
macro_rules! css { ($run:ident; $(($n:ident $r:literal $g:literal $b:literal))*) => { $({
    use colorz::css::{self, CssColor};
    let args = || [3, 4, 5].map(|l| format!("{l}8;2;{};{};{}", $r, $g, $b));
    spec(&mut $run, concat!("css::", stringify!($n)), css::$n, args());
    spec(&mut $run, concat!("CssColor::", stringify!($n)), CssColor::$n, args());
    writes(&mut $run, concat!("Color of css::", stringify!($n)), Color::from(css::$n), args());
    $run.same(concat!("css::", stringify!($n), "::ARGS"), css::$n::ARGS, &format!("2;{};{};{}", $r, $g, $b));
    $run.same(concat!("CssColor::", stringify!($n), ".args()"), CssColor::$n.args(), &format!("2;{};{};{}", $r, $g, $b));
})* } }

fn named() -> Run {
    let mut run = Run { cases: 0 };
    ansi_table!(ansi run);
    xterm_table!(xterm run);
    css_table!(css run);
    run
}
fn values() -> Run {
    let mut run = Run { cases: 0 };
    xterm_table!(xterm run);
    css_table!(css run);
    run
}

fn rgb_args(r: u8, g: u8, b: u8) -> [String; 3] {
    [3, 4, 5].map(|l| format!("{l}8;2;{r};{g};{b}"))
}
fn rgb_type<const R: u8, const G: u8, const B: u8>(run: &mut Run) {
    use colorz::rgb::Rgb;
    let name = format!("Rgb<{R}, {G}, {B}>");
    let [f, b, u] = rgb_args(R, G, B);
    spec(run, &name, Rgb::<R, G, B>, [f.clone(), b.clone(), u.clone()]);
    run.same(&name, Rgb::<R, G, B>::ARGS, &format!("2;{R};{G};{B}"));
    let got = [
        Rgb::<R, G, B>::FOREGROUND_ARGS, Rgb::<R, G, B>::BACKGROUND_ARGS, Rgb::<R, G, B>::UNDERLINE_ARGS,
        Rgb::<R, G, B>::FOREGROUND_ESCAPE, Rgb::<R, G, B>::BACKGROUND_ESCAPE, Rgb::<R, G, B>::UNDERLINE_ESCAPE,
    ];
    for (i, want) in [&f, &b, &u].into_iter().enumerate() {
        run.same(&name, got[i], want);
        run.same(&name, got[i + 3], &format!("\x1b[{want}m"));
    }
}
fn rgb_conversions<const R: u8, const G: u8, const B: u8>(run: &mut Run) {
    use colorz::{rgb::{Rgb, RgbColor}, ComptimeColor};
    let want = RgbColor { red: R, green: G, blue: B };
    let t = Rgb::<R, G, B>;
    for got in [Rgb::<R, G, B>::DYNAMIC, t.into_dynamic(), RgbColor::from(t)] {
        run.agree("runtime colour of a compile time one", got, want);
    }
    for got in [<Rgb<R, G, B> as ComptimeColor>::VALUE, Option::from(t), Some(Color::from(t))] {
        run.agree("dynamic colour of a compile time one", got, Some(Color::Rgb(want)));
    }
}
/// the value of COLORZ_RGB ("r g b") when this was compiled
const EXTRA: [u8; 3] = match option_env!("COLORZ_RGB") {
    None => [0; 3],
    Some(s) => {
        let (s, mut v, mut n, mut i) = (s.as_bytes(), [0; 3], 0, 0);
        while i < s.len() {
            if s[i] == b' ' {
                n += 1
            } else {
                v[n] = v[n] * 10 + (s[i] - b'0')
            }
            i += 1;
        }
        v
    }
};
macro_rules! all_u8 { ($m:ident $f:ident $run:ident) => { $m! { $f $run
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15
    16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
    32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47
    48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63
    64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79
    80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95
    96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111
    112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
    128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
    144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
    160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
    176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
    192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
    208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
    224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
    240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
} } }
/// types with every value in every place: next to small, middle and large values, and to equal ones
macro_rules! red { ($f:ident $run:ident $($x:literal)*) => { $(
    $f::<$x, 9, 100>(&mut $run); $f::<$x, 255, 10>(&mut $run); $f::<$x, $x, 1>(&mut $run);
)* } }
macro_rules! green { ($f:ident $run:ident $($x:literal)*) => { $(
    $f::<99, $x, 0>(&mut $run); $f::<200, $x, 199>(&mut $run); $f::<0, $x, $x>(&mut $run);
)* } }
macro_rules! blue { ($f:ident $run:ident $($x:literal)*) => { $(
    $f::<5, 10, $x>(&mut $run); $f::<100, 99, $x>(&mut $run); $f::<$x, 128, $x>(&mut $run); $f::<$x, $x, $x>(&mut $run);
)* } }
macro_rules! rgb_types { ($f:ident $run:ident) => {
    all_u8!(red $f $run);
    all_u8!(green $f $run);
    all_u8!(blue $f $run);
} }
fn rgb() -> Run {
    let mut run = Run { cases: 0 };
    rgb_type::<{ EXTRA[0] }, { EXTRA[1] }, { EXTRA[2] }>(&mut run);
    rgb_types!(rgb_type run);
    run
}
fn conversions() -> Run {
    let mut run = Run { cases: 0 };
    rgb_types!(rgb_conversions run);
    run
}

fn main() {
    let run = match std::env::args().nth(1).as_deref() {
        Some("C05") => named(),
        Some("C06") => conversions(),
        Some("C07") => rgb(),
        Some("C19") => values(),
        _ => Run { cases: 0 },
    };
    println!("cases {}", run.cases);
}
