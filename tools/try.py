"""Debugging aid: compiles grammars given as macro bodies (separated by lines `--`) and prints the diagnostics."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import build
art = build.prepare()
d = os.path.join(build.WORK, 'try'); os.makedirs(d, exist_ok=True)
bodies = [b.strip() for b in sys.stdin.read().split('\n--\n')]
mods = ['mod m%d { use support::{self,V,W,En,VShow}; use support::Stream as _; use oak::oak; oak! {\n%s\n}\n pub fn run(_: &support::Case) -> String { String::new() } }' % (i, b) for i, b in enumerate(bodies)]
b = build.Batch(art, d, mods, warnings='-w' in sys.argv).compile()
for i, x in enumerate(bodies):
    print(i, x.split('\n')[0][:70], '=>', 'ok' if b.errors[i] is None else b.errors[i])
    if '-w' in sys.argv: print('    ', b.diags[i])
