#!/usr/bin/env python3
"""One-off generator of contracts/src/tables.rs (committed).

Colour *names* are the public API of the crate (read from the pinned source); the *values* are an
independent oracle: CSS values from the color-name package (CSS Color Module Level 4 keywords),
xterm codes by position, ANSI codes from ECMA-48.
"""
import re, json, sys
cn = dict()
for m in re.finditer(r'"(\w+)": \[(\d+), (\d+), (\d+)\]', open('/opt/veriftools/node/node_modules/color-name/index.js').read()):
    cn[m[1]] = tuple(map(int, m.groups()[1:]))
css = open('/repo/src/css.rs').read(); css = css[css.rindex('Css! {'):]
xt = open('/repo/src/xterm.rs').read(); xt = xt[xt.rindex('XTerm! {'):]
names = re.findall(r'^    (\w+) \(', css, re.M)
xs = re.findall(r'^    (\d+) (\w+)', xt, re.M)
assert len(names) == 147 and [int(a) for a, _ in xs] == list(range(256))
out = ['//! Oracle tables, written by tools/gen_tables.py (see there for the sources).\n',
       '/// calls `$m!{ $($pre)* ; (Name r g b) ... }` for every CSS colour with its standard value',
       '#[macro_export]\nmacro_rules! css_table { ($m:ident $($pre:tt)*) => { $m! { $($pre)* ;']
out += ['    (%s %d %d %d)' % ((n,) + cn[n.lower()]) for n in names]
out += ['} } }\n', '/// every xterm colour with its code', '#[macro_export]\nmacro_rules! xterm_table { ($m:ident $($pre:tt)*) => { $m! { $($pre)* ;']
out += ['    (%s %s)' % (n, c) for c, n in xs]
out += ['} } }\n', '/// every ANSI colour with its foreground and background code and its xterm number', '#[macro_export]\nmacro_rules! ansi_table { ($m:ident $($pre:tt)*) => { $m! { $($pre)* ;']
base = ['Black', 'Red', 'Green', 'Yellow', 'Blue', 'Magenta', 'Cyan', 'White']
rows = [(n, 30 + i, 40 + i, i) for i, n in enumerate(base)] + [('Bright' + n, 90 + i, 100 + i, 8 + i) for i, n in enumerate(base)] + [('Default', 39, 49, 16)]
out += ['    (%s %d %d %d)' % r for r in rows]
out += ['} } }\n']
open(sys.argv[1], 'w').write('\n'.join(out))
