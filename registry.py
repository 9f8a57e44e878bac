"""What check.py runs for each property. See DESIGN.md."""
from dataclasses import dataclass, field

# feature sets the harness crate is built with
FEATURES = {"none": "", "std": "std", "scn": "scn", "sc": "sc", "strip": "strip", "scstrip": "sc,strip"}


@dataclass
class Group:
    features: str
    harnesses: list  # names (substrings of the full harness path, or full names with exact)
    expect: int = 1  # how many proofs there must be
    thorough: bool = False  # only in the thorough tier
    internal: bool = False  # contracts on internal functions: do not decide the property on their own
    hook: bool = False  # needs access to private functions through the hook in /repo, decides if it compiles
    exact: bool = False
    timeout: int = 480

    @property
    def cfgs(self):
        return ["colorz_contracts"] if self.internal or self.hook else []


@dataclass
class Check:
    title: str
    groups: list
    functions: list
    level: str = "proof"
    native: list = field(default_factory=list)  # feature sets of the exhaustive native run
    bounded: list = field(default_factory=list)
    trusted: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)
    note: str = ""


TRUSTED = [
    "Kani 0.68.0: translation of rustc MIR to CBMC, its models of Rust intrinsics and of the standard library",
    "CBMC 6.11 symbolic execution and the SAT solver",
    "rustc (the proofs are about the MIR it generates from /repo)",
    "the oracle tables and the specification text in /verif/contracts",
]
STYLE = ["Style::{apply, clear, is_plain, should_color, fg, bg, underline_color, effect_flags, clear_all}", "Style::{fmt_apply, fmt_apply_slow, fmt_clear, fmt_clear_slow}",
         "EffectFlags::{new, with, is, is_any, is_plain, at_most_one_effect, iter}", "EffectFlagsIter::next", "Effect::{mask, decode, apply_args, clear_args, apply_escape, clear_escape}",
         "OptionalColor::{get, color_kind} for C, Option<C>, NoColor", "ansi::Default (WriteColor)"]
COLORS = ["WriteColor for every ColorSpec type", "WriteColor for Color", "WriteColor for RgbColor"]
GHOST = ("style proofs use a ghost colour with one letter per layer in place of concrete colours: by parametricity of the generic code they cover every colour type that writes "
         "ESC [ args m in escape form and args in argument form, which C05 and C07 prove for all of them")
WORLD = ["ghost world (contracts/src/world.rs): AtomicU8 operations act on one sequentially consistent cell per atomic"]
DECISION = ["mode::should_color", "mode::should_color_slow", "set_coloring_mode", "get_coloring_mode", "set_default_stream", "get_default_stream", "Mode::{encode, decode}", "Stream::{encode, decode}"]
ENV = ["ghost world: std::env::var_os and var return an arbitrary optional byte string (its length, its eight leading bytes and whether it is Unicode are symbolic)"]
TTY = ["ghost world: std::io::{stdout, stderr} return handles without effect, Stdout/Stderr::is_terminal and supports_color's level computation return arbitrary values and have no other effect"]

# what every runtime colour writes, with any formatting options: discharges the contract of the ghost colour
TEXTS = ["c05::dynamic::", "c07::foreground", "c07::background", "c07::underline"]

CHECKS = {
    "C01": Check("a styled value is either fully wrapped by its style or left untouched",
        [Group("none", ["c01::"], 25)],
        ["StyledValue::fmt_with", "fmt of StyledValue for Display, Debug, Binary, Octal, Pointer, LowerExp, UpperExp, LowerHex, UpperHex"] + STYLE + ["mode::should_color"],
        trusted=WORLD, assumptions=[GHOST]),
    "C03": Check("applying a style sets exactly its attributes", [Group("none", ["c03::"] + TEXTS, 27)], STYLE + COLORS, assumptions=[GHOST]),
    "C04": Check("clearing a style undoes exactly what applying it did", [Group("none", ["c04::"], 17)], STYLE, assumptions=[GHOST],
        bounded=["c04::round_trip (apply then clear as one composed call): styles with at most two effects; the general statement is the composition of the unbounded apply (C03) and clear contracts"]),
    "C05": Check("named colours write their canonical parameters", [Group("none", ["c05::"], 47)],
        ["AnsiColor, XtermColor, CssColor: *_args, *_escape, args", "ansi::*, xterm::*, css::*: constants, ColorSpec methods, KIND"] + COLORS,
        native=["none"],
        bounded=["length of the text returned by the ColorSpec methods of the 147 css types: all of them executed natively (Kani misreads the length of such constants)"]),
    "C18": Check("a style is plain exactly when it writes nothing", [Group("none", ["c18::"], 15)], STYLE + ["Colorize::{style, into_style}", "StyledValue::{style, into_style}"],
        trusted=WORLD, assumptions=[GHOST]),
    "C12": Check("write errors stop output and are reported", [Group("none", ["c12::"], 37)], STYLE + COLORS + ["StyledValue::fmt_with"], trusted=WORLD, assumptions=[GHOST]),
}
CHECKS["C02"] = Check("the colouring decision follows the documented precedence in every case",
    [Group(f, ["c02::"], 3) for f in FEATURES], DECISION + ["Style::should_color"], trusted=WORLD + TTY, assumptions=[GHOST],
    bounded=["mode::should_color called directly with more than four colour kinds (a style always asks for three)"])
CHECKS["C10"] = Check("global settings read back what was last set and do not affect each other",
    [Group("none", ["c10::"], 2), Group("strip", ["c10::"], 2), Group("std", ["c10::"], 3), Group("sc", ["c10::"], 3, thorough=True), Group("scstrip", ["c10::"], 3, thorough=True)],
    DECISION + ["set_coloring_mode_from_env", "Mode::from_env"], trusted=WORLD + TTY + ENV,
    assumptions=["histories: one step from an arbitrary reachable setting, induction over the length of the history"])
CHECKS["C15"] = Check("environment variables select the mode as documented",
    [Group("std", ["c15::"], 2), Group("sc", ["c15::"], 2, thorough=True), Group("scstrip", ["c15::"], 2)],
    ["Mode::from_env", "set_coloring_mode_from_env", "get_coloring_mode", "get_default_stream"], trusted=WORLD + ENV)
CHECKS["C16"] = Check("stream detection uses the right stream, is remembered, and honours colour kinds",
    [Group("std", ["c16::"], 3), Group("sc", ["c16::"], 3), Group("scn", ["c16::"], 3)], DECISION + ["should_color_slow and its detect"], trusted=WORLD + TTY,
    assumptions=["histories: one decision from an arbitrary reachable detection state, induction over the length of the history"])
CHECKS["C17"] = Check("concurrent setting changes never tear output, settings or decisions",
    [Group("none", ["c17::"], 8), Group("std", ["c17::"], 8), Group("sc", ["c17::"], 8), Group("strip", ["c17::"], 7)],
    DECISION + ["StyledValue::fmt_with", "set_coloring_mode", "set_default_stream"] , trusted=WORLD + TTY,
    assumptions=[GHOST, "atomics are sequentially consistent (weaker orderings are not modelled); other threads act only through the public API and only between atomic accesses (there is no other shared state: the proofs fail with LIMIT if another kind of atomic operation is used)"])
CHECKS["C06"] = Check("compile-time and runtime colours and styles denote the same thing",
    [Group("none", ["c06::", "c05::comptime::"] + TEXTS, 49)],
    ["From, into_dynamic, DYNAMIC, ComptimeColor::VALUE of all 17 + 256 + 147 compile time colour types and Rgb<R, G, B>", "From of AnsiColor, XtermColor, CssColor, RgbColor to Color and Option<Color>",
     "Style::into_runtime_style", "Style::const_into_runtime_style"],
    native=["none"],
    bounded=["Rgb<R, G, B>: 10 instances of the const generic type under the verifier and 2560 natively"],
    assumptions=["style conversion is proved for ghost layer types with arbitrary conversions: by parametricity it covers every layer type",
                 "equal text of both forms: each is proved to be the canonical text of the same colour (css types: their length natively, C05)"])
CHECKS["C07"] = Check("RGB colours are written exactly for all 16 777 216 values",
    [Group("none", ["c07::"], 8), Group("none", ["c07::comptime::generated"], 3, hook=True)],
    ["RgbColor: color_kind, fmt_*", "Color::Rgb: color_kind, fmt_*", "RgbBuffer::{write, write_u8, write_sep, write_char, write_args, to_str, args_payload, raw_args_payload}", "const_rgb_buffer", "Rgb<R, G, B>: constants and ColorSpec methods"],
    native=["none"],
    trusted=["core::str::from_utf8: assumed to accept exactly ASCII text here (the stand-in asserts that the text is ASCII)"],
    bounded=["Rgb<R, G, B> as a type: 8 instances under the verifier and 2560 natively; what their constants are computed by (const_rgb_buffer, args_payload, raw_args_payload) is proved for all values"])
CHECKS["C08"] = Check("parsing a colour accepts exactly the documented language", [Group("none", ["c08::"], 1)],
    ["<Color as FromStr>::from_str", "parse_hex_digit", "merge", "XtermColor::{from, from_code}"])
CHECKS["C09"] = Check("mode and stream names parse exactly, ignoring only ASCII case", [Group("none", ["c09::"], 4)],
    ["Mode::from_ascii_bytes", "<Mode as FromStr>::from_str", "Stream::from_ascii_bytes", "<Stream as FromStr>::from_str"])
CHECKS["C11"] = Check("effect collections behave as mathematical sets", [Group("none", ["c11::"], 19)],
    ["EffectFlags::{new, all, default, from_array, is_plain, is, is_any, with, without, toggled, set, unset, toggle, iter, into_iter, from_iter, eq}", "EffectFlagsIter (Iterator, Clone)", "Effect::{mask, decode, from}", "Style::is"],
    bounded=["EffectFlags::from_array: lengths 0, 1, 2, 3, 5, 13 and 16 (const generic)",
             "collecting through next() instead of fold(): up to 6 effects; through fold(), which the code uses: any number, by induction"])
CHECKS["C13"] = Check("builder methods change only what they name", [Group("none", ["c13::"], 9)],
    ["Style::{new, default, fg, bg, underline_color, effects, effects_array, effect_flags, clear_effects, with, without, toggled}",
     "StyledValue::{new, fg, bg, underline_color, stream, stream_opt, style, into_style}", "Colorize::{style, into_style, style_with, into_style_with}"],
    bounded=["Style::effects, effects_array: up to three effects (of any number: C11)"])
CHECKS["C14"] = Check("every named shortcut applies the colour or effect it is named after", [Group("none", ["c14::"], 7)],
    ["Colorize and StyledValue: 16 colours x {fg, into, on, into_on}", "Colorize, StyledValue and Style: 13 effects", "Colorize::{fg, into_fg, bg, into_bg, underline_color, into_underline_color}"])
CHECKS["C19"] = Check("colour names and codes denote their standard values",
    [Group("none", ["c19::", "c05::css_colors::", "c05::comptime::css_types::", "c05::xterm_colors::"], 25)],
    ["CssColor::rgb", "From<CssColor> for RgbColor", "XtermColor::from_code", "From<u8> for XtermColor", "xterm_from_code!", "AnsiColor::to_xterm", "From<AnsiColor> for XtermColor", "ansi::*::{XTERM, DYNAMIC_XTERM}",
     "CssColor, css::*, XtermColor: *_args, *_escape, args"],
    native=["none"],
    bounded=["length of the text returned by the ColorSpec methods of the 147 css types: all of them executed natively (Kani misreads the length of such constants)"])
CHECKS["C20"] = Check("colouring output allocates no memory",
    [Group("none", ["c20::"], 19), Group("std", ["c20::"], 20), Group("sc", ["c20::"], 20, thorough=True), Group("strip", ["c20::"], 20, thorough=True)],
    ["StyledValue::fmt_with and its ten callers", "mode::should_color", "the FromStr and from_ascii_bytes parsers"] + STYLE + COLORS, trusted=WORLD + TTY,
    assumptions=[GHOST, "heap allocation in safe Rust goes through std::alloc::{alloc, alloc_zeroed, realloc} (the control proofs show that Box, Vec, vec! and format! are seen)",
                 "detecting a terminal for the first time is left out, as the property states"])

NOT_APPLICABLE = {}

# the contracts annotated in place on the functions of /repo, each proved for all inputs
for _pid, _n in {"C02": 1, "C07": 6, "C08": 2, "C09": 2, "C10": 6, "C11": 14, "C19": 2}.items():
    CHECKS[_pid].groups.append(Group("none", [f"functions::k{_pid[1:]}::"], _n, internal=True))
CHECKS["C16"].groups.append(Group("scn", ["functions::k16::"], 1, internal=True))
