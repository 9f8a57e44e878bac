#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the file stays valid JSON lines)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
SEAL="guarded re-export of the sealed marker trait, so that a ghost colour type can be defined outside the crate"
p("C01","A styled value is either fully wrapped by its style or left untouched",
 "Formatting a styled value through any of the nine std formatting traits, or through a custom formatter function, writes exactly the style's start sequence, then the value, then the style's clear sequence when colouring applies to it, and exactly the value's own output when it does not. The value is formatted exactly once, by the same formatting trait, with all of the caller's formatting options (width, fill, alignment, precision, sign, alternate, zero padding, debug-hex) unchanged, and those options never change the escape sequences. Formatting never changes the global coloring settings.",
 ["inputs","configurations"],"every value type, every style (any colour presence in each of the three layers, any effect set), every formatting option, every trait, every coloring mode / stream / default stream, with and without strip-colors",
 "The tests format a handful of literals with {} only; style, options, trait and mode are all free in the property (2^13 effect sets times colours times formatting options).",
 ["src/value.rs"],[("fmt_with: one decision, then prefix / value / suffix","src/value.rs"),("fmt_impl! for nine traits","src/value.rs")],observe=["bytes received by the fmt::Write sink"],hook=SEAL)
p("C02","The colouring decision follows the documented precedence in every case",
 "Whether something is coloured is decided by the first applicable rule of: strip-colors feature gives no; global mode Always gives yes; global mode Never gives no; the per-value stream if given, otherwise the default stream, where AlwaysColor gives yes, NeverColor gives no and Stdout or Stderr give that stream's detection result (always yes when neither the std nor the supports-color feature is enabled). A style's own decision is this decision for the colour kinds of its foreground, background and underline colours, and the decision never changes any setting.",
 ["inputs","configurations","histories"],"every mode, default stream, per-value stream or none, every list of colour kinds, every feature set and detection outcome",
 "No test covers should_color at all; the product of mode, stream, default stream, detection outcome and feature set is never enumerated.",
 ["src/mode.rs","src/style.rs"],[("should_color cascade","src/mode.rs"),("should_color_slow per feature set","src/mode.rs"),("Style::should_color","src/style.rs")],
 state=[("COLORING_MODE","global mode","src/mode.rs"),("DEFAULT_STREAM","default stream","src/mode.rs")],observe=["return value of mode::should_color and Style::should_color"])
p("C03","A style's start sequence sets exactly the style's attributes on a terminal",
 "Interpreted as SGR escape sequences from any prior terminal state, the text written by applying a style is well formed, sets the foreground and background to exactly the style's colours where it has them, turns on exactly its effects (each by its standard SGR code), sets the underline colour exactly when the style has one together with an underline or double-underline effect, and changes nothing else. This holds whichever mix of compile-time, optional and absent colour types the style uses.",
 ["inputs"],"every effect set (2^13), every presence/absence of the three colours, every combination of colour type kinds (always, optional, never), every prior terminal state",
 "The tests compare a few literal strings; the formatter has fast paths per colour-type combination and effect count that the tests sample once or not at all.",
 ["src/style.rs"],[("fmt_apply fast paths and fmt_apply_slow","src/style.rs"),("Effect! table of SGR codes","src/style.rs")],observe=["bytes written by Style::apply(), interpreted as SGR"],hook=SEAL)
p("C04","Clearing a style undoes exactly what applying it did",
 "Interpreted as SGR from any terminal state, the text written by clearing a style is well formed and returns to default every attribute that applying the same style sets: its colours, its effects, and the underline colour when applying it sets one. It changes no other attribute, except those that share a standard off-code with one of the style's effects; clear-all resets everything with a single reset sequence.",
 ["inputs"],"every effect set, every presence/absence of the three colours, every colour-type combination, every prior terminal state",
 "Tests check a few literal outputs; clear has its own fast paths, separate from apply, so the pairing is only sampled.",
 ["src/style.rs"],[("fmt_clear fast paths and fmt_clear_slow","src/style.rs"),("clear codes in the Effect! table","src/style.rs")],observe=["bytes written by Style::clear() and Style::clear_all()"],hook=SEAL)
p("C05","Every named colour writes its canonical SGR parameters in every layer",
 "For every ANSI, Xterm and CSS colour and each of foreground, background and underline, the arguments are the canonical ones (ANSI 30-37/90-97/39 and 40-47/100-107/49, Xterm 38/48/58;5;code, CSS 38/48/58;2;r;g;b of that colour, ANSI underline the same-numbered Xterm colour), and the escape sequence is ESC [ followed by those arguments followed by m. The string accessors, the compile-time constants, the formatter methods and the same colour wrapped in the dynamic colour type all give the same text, and each reports the colour kind of its family.",
 ["inputs"],"all 17 ANSI, 256 Xterm and 147 CSS colours, three layers, arguments and escape form, compile-time type, runtime enum and Color wrapper",
 "Tests exercise about five colours in foreground or background only.",
 ["src/ansi.rs","src/xterm.rs","src/css.rs","src/lib.rs"],[("colour tables generated by macros","src/ansi.rs"),("impl WriteColor for Color dispatch","src/lib.rs"),("blanket impl WriteColor for ColorSpec","src/lib.rs")],observe=["accessor strings and bytes written by the fmt_* methods"])
p("C06","Compile-time and runtime colours and styles denote the same thing",
 "Every compile-time colour type converts (through each conversion offered: into_dynamic, DYNAMIC, From, its constant Option value) to the one runtime colour of the same name, and converting a style to a runtime style, at run time or in const context, keeps its effects and turns each layer into exactly the corresponding optional runtime colour. Writing the converted colour gives the same text as writing the original.",
 ["inputs","programs"],"every compile-time colour type of every family, every RGB const generic instantiation checked by contract on the shared generator, every style",
 "Tests convert one style and a couple of colours.",
 ["src/ansi.rs","src/xterm.rs","src/css.rs","src/rgb.rs","src/style.rs","src/lib.rs"],[("ComptimeColor::VALUE and From impls","src/lib.rs"),("into_runtime_style / const_into_runtime_style","src/style.rs")],observe=["converted values and their written text"])
p("C07","RGB colours are written exactly for all 16 777 216 values",
 "For every red, green and blue value and every layer, an RGB colour writes 38;2; / 48;2; / 58;2; followed by the three components in plain decimal without leading zeros separated by semicolons, and in escape form the same between ESC [ and m, without panicking. The runtime type, the compile-time const-generic type and the dynamic colour wrapper agree on every value.",
 ["inputs"],"all 2^24 component triples, three layers, both forms, runtime writer and compile-time generator",
 "Tests cover three or four triples; the writers are hand-rolled digit loops over a 19-byte buffer where each digit-count boundary matters.",
 ["src/rgb.rs","src/lib.rs"],[("RgbBuffer writers","src/rgb.rs"),("const_rgb_buffer","src/rgb.rs")],observe=["bytes written and constants"],hook="guarded wrapper exposing the compile-time RGB generator as a function of runtime values")
p("C08","Parsing a colour accepts exactly the documented language",
 "For every input string, parsing a colour yields: the RGB colour for # and six hex digits, the Xterm colour for # and one or two hex digits or for one to three decimal digits with value at most 255, the ANSI colour for its lower-case name (bright ones as 'bright name', purple meaning magenta), and otherwise an error: overflow for three decimal digits above 255, invalid-hex-digit for # with one, two or six further bytes not all hex, unknown otherwise. It never panics.",
 ["inputs"],"every string of every length",
 "There is no test of the parser beyond four doc examples; arithmetic slips in one digit-count case are invisible to them.",
 ["src/from_str.rs"],[("Color::from_str slice patterns","src/from_str.rs")],observe=["result of str::parse::<Color>()"])
p("C09","Mode and stream names parse exactly, ignoring only ASCII case",
 "For every byte string, parsing a mode succeeds exactly for detect, always and never, and parsing a stream exactly for stdout, stderr, always and never, in any mix of ASCII upper and lower case, giving the value of that name; every other input is an error. Parsing from a string and from bytes agree and never panic.",
 ["inputs"],"every byte string of every length",
 "Tests check that the right names are accepted in all case mixes, but never that anything else is rejected; the comparison is a packed-word trick with padding.",
 ["src/mode.rs"],[("from_ascii_bytes packed comparison","src/mode.rs")],observe=["result of from_ascii_bytes and str::parse"])
p("C10","Global settings read back what was last set and do not affect each other",
 "After setting the global mode (or default stream), reading it returns that value until it is set again, starting from Detect (and AlwaysColor); setting one never changes the other, and no other operation changes either. With strip-colors the mode always reads Never and setting it has no effect, while the default stream still reads back what was set.",
 ["histories","configurations"],"every sequence of setting operations, reads, decisions and formatting calls, per feature set",
 "No test reads a setting back; histories are unbounded and need an inductive argument over one step from any state.",
 ["src/mode.rs"],[("encode/decode to an atomic byte","src/mode.rs"),("setters and getters","src/mode.rs")],state=[("COLORING_MODE","global mode","src/mode.rs"),("DEFAULT_STREAM","default stream","src/mode.rs")],observe=["get_coloring_mode, get_default_stream"])
p("C11","Effect collections behave as mathematical sets",
 "A collection of effects is a set: adding, removing, toggling (returning or in place) changes membership of exactly that effect, membership / emptiness / intersection / equality agree with the set, all() has every effect and new() none. Building from an array or an iterator gives exactly the effects listed, and iterating yields each member exactly once in declaration order and then ends.",
 ["inputs","histories"],"every set (2^13), every effect, every pair of sets, every list of effects",
 "No test covers the collection operations; they are bit tricks over a packed word.",
 ["src/style.rs"],[("EffectFlags bit operations","src/style.rs"),("EffectFlagsIter::next","src/style.rs"),("from_array / from_iter","src/style.rs")],state=[("EffectFlags.data","bit i set iff effect i is a member; no bits above the last effect","src/style.rs")],observe=["is, is_any, is_plain, iter, =="])
p("C12","Write errors stop output and are reported",
 "If the destination fails at any write, or the formatted value itself reports an error, then formatting a styled value, applying or clearing a style, or writing any colour returns an error and writes nothing further; it returns success only if every write succeeded, and everything written before the failure is a prefix of the output without failure.",
 ["fault_sequences","inputs"],"every position at which the sink can fail, every style, every colour, failing values",
 "All tests format into a String, which cannot fail.",
 ["src/value.rs","src/style.rs","src/lib.rs","src/rgb.rs"],[("? propagation in fmt_with, fmt_apply, fmt_clear","src/style.rs")],observe=["fmt::Result and writes seen by a failing fmt::Write"],hook=SEAL)
p("C13","Builder methods change only what they name",
 "Every builder method of a style or styled value sets the one component it names (foreground, background, underline colour, effects, a single effect, stream) to the given value and leaves every other component, the wrapped value, the other effects and the stream unchanged. Wrapping a value starts with no colours, no effects and no stream, or with exactly the given style.",
 ["inputs","histories"],"every style, colour, effect, effect set, stream and value",
 "Tests only chain a few builders and look at one rendered string; a dropped stream or underline colour is not visible in them.",
 ["src/style.rs","src/value.rs"],[("Style builders","src/style.rs"),("StyledValue builders and Colorize wrappers","src/value.rs")],observe=["public fields of Style and StyledValue"],hook=SEAL)
p("C14","Every named shortcut applies the colour or effect it is named after",
 "Each of the named colour shortcuts (sixteen colours, foreground and on_ background, borrowing and into_ forms, on values and on styled values) sets exactly that ANSI colour in that layer and nothing else, and each of the thirteen named effect shortcuts (on values, styled values and styles) adds exactly that effect and nothing else. The generic fg, bg and underline_color shortcuts set exactly the given colour in that layer.",
 ["inputs","programs"],"all shortcut methods, on every receiver state (style, stream, value)",
 "Tests call four of the more than one hundred generated methods.",
 ["src/value.rs","src/style.rs"],[("AnsiColorMethods! table","src/value.rs"),("Effect! set functions","src/style.rs")],observe=["public fields of the result"],hook=SEAL)
p("C15","Environment variables select the mode as documented",
 "Reading the mode from the environment gives Never if NO_COLOR is set to anything but 0, otherwise Always if ALWAYS_COLOR, CLICOLOR_FORCE or FORCE_COLOR is set to anything but 0, otherwise nothing. Setting the mode from the environment sets exactly that mode, leaves it unchanged when nothing is given, and does nothing with strip-colors.",
 ["inputs","configurations"],"every combination of the four variables being unset or set to any value, every prior mode",
 "No test touches the environment.",
 ["src/mode.rs"],[("Mode::from_env","src/mode.rs"),("set_coloring_mode_from_env","src/mode.rs")],observe=["Mode::from_env, get_coloring_mode afterwards"])
p("C16","Stream detection uses the right stream, is remembered, and honours colour kinds",
 "With std, Stdout and Stderr colour exactly when that stream is a terminal; with supports-color, exactly when that stream supports every colour kind asked for (ANSI, Xterm, RGB; absent colours need nothing). Each stream is judged by its own capability, whatever was asked before and in whatever order, and once a stream has been detected later decisions for it give the answer for that first detection.",
 ["histories","configurations","inputs"],"every detection outcome for both streams, every sequence of queries, every list of colour kinds",
 "Test processes have one fixed terminal situation and no test queries detection.",
 ["src/mode.rs"],[("should_color_slow, detect, support cache","src/mode.rs"),("ColorSupport encode/decode","src/mode.rs")],state=[("STDOUT_SUPPORT","cached capability of stdout","src/mode.rs"),("STDERR_SUPPORT","cached capability of stderr","src/mode.rs")],observe=["mode::should_color with Stdout/Stderr"])
p("C17","Concurrent setting changes never tear output, settings or decisions",
 "While other threads change the global mode, the default stream or trigger detection at any moment, formatting a styled value still yields either the fully wrapped or the plain value, and every decision is one that settings in force during the call give; nothing panics. A completed set of one setting is never lost or altered by concurrent changes of the other.",
 ["schedules"],"every interleaving of other threads' setter and query calls at every atomic access of the observed call",
 "Tests run one thread per process state and never change settings during formatting.",
 ["src/mode.rs","src/value.rs"],[("atomic bytes for settings and caches","src/mode.rs"),("single decision per formatting call","src/value.rs")],state=[("COLORING_MODE","global mode","src/mode.rs"),("DEFAULT_STREAM","default stream","src/mode.rs")],observe=["output bytes, return values, get_* after the call"],hook=SEAL)
p("C18","A style is plain exactly when it writes nothing",
 "A style reports being plain if and only if applying it writes no bytes at all, if and only if clearing it writes no bytes at all. Every new style, and every value wrapped without a style, is plain, and a plain style leaves formatted output byte-for-byte the value's own.",
 ["inputs"],"every style and colour-type combination",
 "Tests check is_plain only on a new style.",
 ["src/style.rs","src/value.rs"],[("Style::is_plain","src/style.rs"),("empty-style handling in fmt_apply / fmt_clear","src/style.rs")],observe=["is_plain, bytes written by apply and clear"],hook=SEAL)
p("C19","Colour names and codes denote their standard values",
 "Each CSS colour's RGB value (runtime conversion, compile-time constant and written text) is the value the CSS standard gives for that name, each Xterm code 0-255 converts to the one Xterm colour with that code and writes that code, and each ANSI colour maps to the Xterm colour of the same number (0-15 in standard order, Default being 16).",
 ["inputs"],"all 147 CSS names, all 256 codes, all 17 ANSI colours",
 "Tests check two or three of them; the tables are long literal lists.",
 ["src/css.rs","src/xterm.rs","src/ansi.rs"],[("Css! table","src/css.rs"),("XTerm! table and from_code","src/xterm.rs"),("to_xterm","src/ansi.rs")],observe=["CssColor::rgb, XtermColor::from_code, to_xterm, accessors"])
p("C20","Colouring output allocates no memory",
 "Deciding whether to colour by mode or stream settings, writing any colour, applying or clearing any style, formatting a styled value whose value does not itself allocate, and parsing colours, modes and streams never allocate heap memory, in every feature set.",
 ["inputs","configurations"],"every style, colour and setting; detection through the operating system or the supports-color crate excepted",
 "Tests format into a heap String, so an allocation inside the crate is invisible.",
 ["src/rgb.rs","src/style.rs","src/value.rs","src/lib.rs"],[("stack-only RgbBuffer","src/rgb.rs"),("no_std without alloc","src/lib.rs")],observe=["calls of the global allocator"],hook=SEAL)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
