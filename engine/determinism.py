"""Determinism of expansions, diagnostics and runs (C23)."""
import random, re, os
import peg, gen, build, dyn, core
from peg import Gram, walk, WF
from core import Check
from props import register
import lints

# expanded before the other modules in one process out of two, after them in the others
DECOY = """mod m%d { use support::{self, V, W, En, VShow}; use support::Stream as _; use oak::oak; oak! {
a = ("x" / "y" b)+ (.. ["a-z"] / . ...b)? > f
b = !("z" / "t") (. . / ["0-9"] .)* "u"
fn f<A: support::VShow>(a: A) -> V { V(String::new()) }
} }"""

def layout(text):
    """The pretty-printer of rustc breaks the lines differently from one place to the other."""
    return re.sub(r'\s+', '', text)

def expansions(art, path, mods, times, seed):
    """Expands the modules in several processes and orders. -> list of ({i: expansion}, {i: diagnostics})"""
    n = len(mods)
    bt = build.Batch(art, os.path.dirname(path), mods + [DECOY % n, 'mod m%d { }' % (n + 1)], warnings=True, main=False)
    out = []
    for t in range(times):
        order = list(range(n))
        if t >= 2: random.Random('%s-%d' % (seed, t)).shuffle(order)
        order = [n] + order + [n + 1] if t % 2 else order + [n, n + 1]
        text, ranges = bt.assemble(order)
        with open(path, 'w') as f: f.write(text)
        rc, diags, crash, texts = build.expanded(art, path, n + 2, warnings=True)
        if rc is None: return None
        d = {i: [] for i in order}
        for x in diags:
            for pr, l0, c0, l1, c1, fn in x.lines:
                hit = [i for i, (a, b) in ranges.items() if a <= l0 <= b] if fn == path else []
                if hit:
                    a = ranges[hit[0]][0]
                    places = sorted((p, y0 - a, z0, y1 - a, z1) if g == path else (p, y0, z0, y1, z1, g) for p, y0, z0, y1, z1, g in x.lines)
                    d[hit[0]].append((x.level, x.text, tuple(x.children), tuple(map(str, places))))
                    break
        out.append(({i: layout(texts[i]) for i in range(n) if i in texts}, d))
    return out

def first_difference(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 40)
    return '%r / %r' % (a[i:i + 120], b[i:i + 120])

@register
class C23(Check):
    id = 'C23'
    technique = 'property-based testing: random grammars (valid, with warnings, invalid) expanded in several processes, functions run several times, in several orders and in several processes'
    rule = 'Random well-typed grammars, chains and infinite types (warnings), ill-formed and ill-typed grammars (errors); 4 expansions in as many processes (hash seeds differ), in several orders,, 3 runs in different orders. Non-trivial: a grammar with several functions or rules or at least two diagnostics, and calls that read input.'
    quick = (24, 24)
    thorough = (200, 40)
    min_nontrivial = 600
    expand = 4
    def make_item(self, rng, k, tier):
        kind = ('good', 'good', 'good', 'lint', 'infinite', 'raw', 'ill')[rng.randrange(7)]
        cases = []
        if kind == 'good':
            g = gen.Gen(rng, gen.Opts(rules=(2, 6), call=3.0, maxsize=70, alt=4.0)).grammar()
            inp = gen.Inputs(g, rng)
            cases = [[n, m, s] for n in g.names() for s in inp.sample(n, 5) for m in 'pr']
        elif kind == 'lint': g = lints.C16.chained(self, rng)
        elif kind == 'infinite': g = lints.C16.infinite(self, rng)
        elif kind == 'raw':
            while True:
                g = gen.RawGen(rng, rules=(2, 5), depth=3, empty=0.3).grammar()
                if g.size() <= 60 and not WF(g).ok: break
        else:
            for _ in range(300):
                g = gen.RawGen(rng, rules=(2, 4), depth=3, values=True, acts=True, rec=0.5, empty=0.02).grammar()
                if g.size() <= 60 and WF(g).ok and peg.typing(g)[0] == 'ill': break
        if g is None: return None
        return {'g': g.to_json(), 'kind': kind, 'cases': cases, 'shuffle': rng.randint(1, 10 ** 6)}

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        gs = [Gram.from_json(it['g']) for it in items]
        mods = [peg.module('m%d' % i, g) for i, g in enumerate(gs)]
        out = [None] * len(items)
        runs = expansions(art, os.path.join(workdir, 'e.rs'), mods, self.expand, items[0]['shuffle'])
        if runs is None:
            build.NO_ANSWER.append('expansion too long')
            return out
        texts0, diags0 = runs[0]
        for texts, diags in runs[1:]:
            for i in range(len(mods)):
                if out[i]: continue
                a, b = texts0.get(i), texts.get(i)
                if a != b:
                    out[i] = 'expansion: two expansions of the same grammar differ: %s' % (first_difference(a, b) if a and b else 'one is empty')
                elif diags0[i] != diags[i]:
                    p, q = [(x, y) for x, y in zip(diags0[i] + [None], diags[i] + [None]) if x != y][0]
                    out[i] = 'diagnostics: two expansions of the same grammar give different messages: %r / %r' % (p, q)
        if stats is not None:
            for i, it in enumerate(items):
                stats.evaluations += self.expand
                stats.add(it['kind'])
                stats.add('diagnostics', len(diags0[i]))
                if i in texts0: stats.add('expansions compared')
                if len(diags0[i]) >= 2 or len(gs[i].rules) >= 2: stats.nontrivial(gs[i].key())
        # runs
        idx = [i for i, it in enumerate(items) if it['cases'] and not out[i]]
        if not idx: return out
        b = build.Batch(art, workdir, [mods[i] for i in idx]).compile()
        cases, owner = [], []
        for j, i in enumerate(idx):
            if b.errors[j] is not None: continue
            p = dyn.Prepared(gs[i])
            for n, m, s in items[i]['cases']:
                ref = p.ref(n, s, 0, m == 'p')
                if ref is None: continue
                cases.append((b.order[j], 2 * p.names.index(n) + (m == 'r'), dyn.fuel_for(ref), 0, 0, s))
                owner.append((i, n, m, s, ref))
        if not cases: return out
        rng = random.Random(items[0]['shuffle'])
        results = []
        for r in range(3):
            order = list(range(len(cases)))
            if r: rng.shuffle(order)
            # the second run repeats each call
            if r == 1: order = [k for k in order for _ in (0, 1)]
            obs = build.run_cases(b.binary, [cases[k] for k in order], workdir)
            res = {}
            for k, o in zip(order, obs): res.setdefault(k, []).append(o)
            results.append(res)
        for k, (i, n, m, s, ref) in enumerate(owner):
            os_ = [o for res in results for o in res[k] if o.kind not in ('HANG', 'SKIPPED')]
            if stats is not None:
                stats.evaluations += len(os_)
                if ref['farc'] > 0 and ref['steps'] >= 4: stats.nontrivial((gs[i].key(), n, m, s))
            if out[i] or not os_: continue
            for o in os_[1:]:
                if o.key() != os_[0].key() or o.msg != os_[0].msg:
                    out[i] = 'run: two runs of %s_%s on %r differ: %s %s / %s %s' % ({'p': 'parse', 'r': 'recognize'}[m], n, s, os_[0].brief(), os_[0].kind == 'OBS' and os_[0].debug, o.brief(), o.kind == 'OBS' and o.debug)
        if stats is not None and owner:
            i, n, m, s, ref = owner[-1]
            stats.sample({'grammar': peg.macro_body(gs[i]), 'call': '%s %s on %r' % (m, n, s)}, 2)
        return out

    def shrinks(self, item, msg):
        g = Gram.from_json(item['g'])
        if msg.startswith('run'):
            for c in item['cases']: yield dict(item, cases=[c])
            h2 = len(item['cases']) // 2
            if h2: yield dict(item, cases=item['cases'][:h2])
        elif item['cases']: yield dict(item, cases=[])
        keep = {c[0] for c in item['cases']}
        pred = (lambda h: True) if item['kind'] in ('raw', 'ill') else dyn.valid
        for h in dyn.shrink_gram(g, keep, pred):
            yield dict(item, g=h.to_json())

    def cost(self, item):
        g = Gram.from_json(item['g'])
        return 20 * g.size() + 10 * len(g.rules) + 5 * sum(1 for r in g.rules if r[1]) + sum(5 + len(c[2]) for c in item['cases'])

    def describe(self, item):
        return '  oak! {\n    ' + peg.macro_body(Gram.from_json(item['g'])).replace('\n', '\n    ') + '\n  }'
