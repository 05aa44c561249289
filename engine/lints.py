"""Warnings of the macro (C16)."""
import random, re
import peg, gen, build, dyn, core
from peg import Gram, walk, WF, Printer
from core import Check
from props import register

OPS = ('star', 'plus', 'opt', 'not', 'and')
SHOW = {'star': 'e*', 'plus': 'e+', 'opt': 'e?', 'not': '!e', 'and': '&e'}
# (outer, inner) -> operator of the equivalent expression
TABLE = {('not', 'not'): 'and', ('and', 'and'): 'and', ('not', 'and'): 'not', ('and', 'not'): 'not', ('opt', 'opt'): 'opt', ('opt', 'plus'): 'star',
         ('opt', 'star'): 'star', ('plus', 'plus'): 'plus', ('star', 'plus'): 'star', ('star', 'star'): 'star'}
# through a call, the rewriting would change the called rule as well
LOCAL = {('not', 'not'), ('not', 'and'), ('opt', 'plus')}
CALLS = {('and', 'and'), ('and', 'not'), ('opt', 'opt'), ('opt', 'star'), ('plus', 'plus')}

def show_chain(o, i):
    return SHOW[o].replace('e', '(' + SHOW[i] + ')')

class LinePrinter(Printer):
    """Each operator starts its own line, marked by a comment."""
    def __init__(self):
        self.n = 0
        self.nodes = []
    def expr(self, e):
        if e[0] in OPS:
            k = len(self.nodes)
            self.nodes.append(e)
            inner = '(' + self.expr(e[1]) + ')'
            mark = '\n/*#%d*/' % k
            if e[0] in ('not', 'and'): return mark + {'not': '!', 'and': '&'}[e[0]] + inner
            return mark + inner + {'star': '*', 'plus': '+', 'opt': '?'}[e[0]]
        return super().expr(e)
    def rule(self, r):
        return '\n' + super().rule(r)

def reach(g, e, seen=()):
    """Operator at the head of an expression that recognizes the same inputs as e: (operator, through a call?, operand, direct?) or None."""
    k = e[0]
    if k in OPS: return (k, False, e[1], True)
    if k in ('asc', 'act', 'span', 'range'):
        r = reach(g, e[1], seen)
        return r and (r[0], r[1], r[2], False)
    if k == 'nt':
        if e[1] in seen: return None
        r = reach(g, g.expr(e[1]), seen + (e[1],))
        return r and (r[0], True, r[2], False)
    if k == 'alt':
        rs = [reach(g, c, seen) for c in e[1:]]
        if any(r is None or r[0] != 'and' for r in rs): return None
        return ('and', any(r[1] for r in rs), ('alt',) + tuple(r[2] for r in rs), False)
    return None

def chain_texts(d):
    m = re.search(r'of the form `([^`]*)`', d.text)
    w = re.search(r'rewrite this expression to the equivalent one `([^`]*)`', d.text)
    return (m and m.group(1).replace(' ', ''), w and w.group(1).replace(' ', ''))

ATTRS = ['unknown', 'allow', 'foo', 'print_code', 'show_type', 'typing', 'oak::foo', 'a::b::c', '::oak', 'foo(bar)', 'foo = "x"', 'oak::debug::typing(1, "2")', 'allow(dead_code, unused)', 'r#type',
         'a::print', 'cfg(test)', 'doc = "text"']

def operator_choice(rng, x, names, extra):
    """A choice between x and other operators, some of them written in another rule."""
    def branch():
        y = (rng.choice(['and', 'and', 'and', x[0]]), ('lit', rng.choice('abc')))
        if rng.random() < 0.2: y = ('asc', y, '(^)')
        if rng.random() < 0.35:
            known = [n for n, _, b in extra if b[0] == 'and']
            n = 'k%d' % len(extra)
            if known and rng.random() < 0.4: return ('nt', rng.choice(known))
            if n not in names and len(extra) < 4:
                extra.append((n, '(^)', y))
                return ('nt', n)
        return y
    bs = [branch() for _ in range(rng.choice([1, 1, 2, 3]))]
    bs.insert(rng.randint(0, len(bs)), x)
    return ('alt',) + tuple(bs)

@register
class C16(Check):
    id = 'C16'
    technique = 'property-based testing: warnings of the macro on random grammars compared with the documented chains, rewritings checked with the reference interpreter, infinite types with the reference typing'
    rule = 'Random well-formed grammars with operators wrapped around random sub-expressions and rules, and random grammars whose inferred types are infinite. Non-trivial: a chain of operators (through parentheses, calls, actions or ascriptions), an infinite type or an unknown attribute.'
    quick = (112, 60)
    thorough = (300, 90)
    min_nontrivial = 600
    def chained(self, rng):
        for _ in range(3000):
            o = gen.Opts(values=False, unit_rules=1.0, act=1.0 if rng.random() < 0.5 else 0, span=0.5, range=0.5, pred=3.0, rec=0.4, rules=(1, 3), depth=3, maxsize=30, streams=[('str', 1)])
            g = gen.Gen(rng, o).grammar()
            rules = []
            extra = []
            names = g.names()
            def f(x):
                if rng.random() < 0.22:
                    x = (rng.choice(OPS), x)
                    while rng.random() < 0.5: x = (rng.choice(OPS), x)
                    if rng.random() < 0.35: x = (rng.choice(OPS), operator_choice(rng, x, names, extra))
                    elif rng.random() < 0.3:
                        y = x
                        if rng.random() < 0.5: y = ('asc', y, '(^)')
                        elif rng.random() < 0.5 and y[0] not in ('not', 'and'): y = ('range', y)
                        x = (rng.choice(OPS), y)
                    elif rng.random() < 0.4:
                        n = 'k%d' % len(extra)
                        if n not in names and len(extra) < 3:
                            extra.append((n, '(^)', x))
                            x = ('nt', n)
                            if rng.random() < 0.7: x = (rng.choice(OPS), x)
                return x
            h = g.copy(rules=[(n, '(^)', peg.map_expr(f, e)) for n, t, e in g.rules] + extra)
            if h.size() > 60 or not WF(h).ok: continue
            if peg.typing(h, True)[0] != 'ok': continue
            if any(reach(h, x[1]) for _, _, e in h.rules for x in walk(e) if x[0] in OPS) or rng.random() < 0.15: return h
        return None

    def infinite(self, rng):
        for _ in range(60):
            g = gen.recursive_gram(rng)
            if g is None: return None
            if peg.typing(g)[1].infinite or rng.random() < 0.2: return g
        return g

    def make_item(self, rng, k, tier):
        g = self.infinite(rng) if k % 4 == 3 else self.chained(rng)
        if g is None: return None
        attrs = []
        if rng.random() < 0.15: attrs = [rng.choice(ATTRS) for _ in range(rng.randint(1, 3))]
        return {'g': g.to_json(), 'attrs': attrs}

    def texts(self, item, j):
        g = Gram.from_json(item['g'])
        p = LinePrinter()
        body = peg.macro_body(g, p)
        attrs = ''.join('#![%s]\n' % a for a in item['attrs'])
        return g, p, peg.module('m%d' % j, g, attrs + body)

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        ts = [self.texts(it, j) for j, it in enumerate(items)]
        b = build.Batch(art, workdir, [t[2] for t in ts], metadata=True, main=False, warnings=True).compile()
        out = []
        for i, it in enumerate(items):
            g, p, text = ts[i]
            if stats is not None: stats.evaluations += 1
            if b.errors[i] == 'HANG':
                out.append(None)
                continue
            if b.errors[i] is not None:
                # the verdict itself is judged by other checks
                if stats is not None: stats.add('not accepted')
                out.append(None)
                continue
            out.append(self.verdict(it, g, p, text, [d for d in b.diags[i] if d.level == 'warning' and d.code is None], stats))
        return out

    def verdict(self, item, g, p, text, warnings, stats):
        lines = {}
        for ln, l in enumerate(text.split('\n')):
            m = re.match(r'/\*#(\d+)\*/', l)
            if m: lines[ln] = int(m.group(1))
        warned = {}
        infinite, unknown, other = [], 0, []
        for d in warnings:
            first = min(l for pr, l, c, l2, c2, f in d.lines if pr) - d.base if d.lines else None
            if 'unnecessary chaining' in d.text:
                if first not in lines: return 'location: the warning %r does not point to an expression with an operator (line %s)' % (d.text.split('\n')[0], first)
                k = lines[first]
                if k in warned: return 'twice: %r is reported twice' % peg.CANON.expr(p.nodes[k])
                warned[k] = chain_texts(d)
            elif 'infinite recursive type' in d.text:
                infinite += [[x.strip() for x in l.split(':')[-1].split('->')] for l in d.text.split('\n') if '->' in l]
            elif 'unknown attribute' in d.text: unknown += 1
            else: other.append(d.text)
        if other: return 'other: undocumented warning %r' % other[0]
        if unknown != len(item['attrs']): return 'attributes: %d unknown attributes, %d warnings' % (len(item['attrs']), unknown)
        # chains
        index = {id(e): k for k, e in enumerate(p.nodes)}
        for k, (pat, new) in warned.items():
            e = p.nodes[k]
            r = reach(g, e[1])
            src = peg.CANON.expr(e)
            if r is None or (e[0], r[0]) not in TABLE: return 'spurious: %r is reported as %s' % (src, pat)
            o = (e[0], r[0])
            if pat != show_chain(*o): return 'shape: %r is reported as %s instead of %s' % (src, pat, show_chain(*o))
            if r[1] and o in LOCAL: return 'call: %r is reported as %s, although the inner operator is in another rule' % (src, pat)
            if new not in SHOW.values(): return 'rewriting: unreadable suggestion %r' % new
            m = self.equivalent(g, e, ([x for x in SHOW if SHOW[x] == new][0], r[2]))
            if m: return 'rewriting: %r is rewritten as %s: %s' % (src, new, m)
            if stats is not None:
                stats.add('warned ' + pat + (' through a call' if r[1] else '' if r[3] else ' indirect'))
        m = self.missing(g, p, warned, index, item)
        if m: return m
        # infinite types
        ty = peg.typing(g)
        if ty[0] == 'ok':
            for path in infinite:
                comp = [c for c in ty[1].infinite if path[0] in c]
                if not comp: return 'infinite: the type of %s is not infinite (%s)' % (path[0], ' -> '.join(path))
                for a, c in zip(path, path[1:]):
                    if c not in ty[1].deps(a): return 'infinite: the cycle %s is not one: %s does not depend on %s' % (' -> '.join(path), a, c)
                if path[0] != path[-1]: return 'infinite: %s is not a cycle' % ' -> '.join(path)
            for c in ty[1].infinite:
                for n in c:
                    if not any(n in path for path in infinite): return 'infinite: the type of %s is infinitely recursive, but no warning mentions it' % n
        if stats is not None:
            if infinite: stats.add('infinite types')
            if item['attrs']: stats.add('unknown attributes')
            if infinite or item['attrs'] or any(x[0] in OPS and reach(g, x[1]) for _, _, e in g.rules for x in walk(e)): stats.nontrivial(g.key())
            if warned or infinite: stats.sample({'grammar': peg.macro_body(g), 'warnings': [d.text[:90] for d in warnings]}, 3)
        return None

    def missing(self, g, p, warned, index, item):
        def go(e):
            if e[0] in OPS:
                if index[id(e)] in warned: return None      # what is inside is looked at once the chain is rewritten
                r = reach(g, e[1])
                if r is not None and (e[0], r[0]) in TABLE and (r[3] or e[1][0] == 'nt' and self.plain(g, e[1]) and (e[0], r[0]) in CALLS):
                    return 'missing: %r has the form %s but there is no warning' % (peg.CANON.expr(e), show_chain(e[0], r[0]))
            for c in peg.children(e):
                m = go(c)
                if m: return m
            return None
        for n, t, e in g.rules:
            m = go(e)
            if m: return m
        return None

    def plain(self, g, e):
        """A call to a rule whose body is an operator."""
        n = 0
        while e[0] == 'nt' and n < 10:
            e = [b for a, t, b in g.rules if a == e[1]][0]
            n += 1
        return e[0] in OPS

    def equivalent(self, g, old, new):
        """Both expressions recognize the same prefixes (reference interpreter on inputs derived from the operand)."""
        for op in (old, new):
            h = g.copy(rules=g.rules + [('probe_', '(^)', op)])
        rng = random.Random(repr(old))
        h1 = g.copy(rules=g.rules + [('probe_', '(^)', old)])
        h2 = g.copy(rules=g.rules + [('probe_', '(^)', new)])
        i1, i2 = peg.Interp(h1, None), peg.Interp(h2, None)
        for s in gen.Inputs(h1, rng).sample('probe_', 25):
            try:
                a, b = i1.run('probe_', s, 0, False), i2.run('probe_', s, 0, False)
            except peg.TooLong:
                continue
            if (a['ok'], a['pos']) != (b['ok'], b['pos']):
                return 'on %r, %s instead of %s' % (s, 'match up to %d' % b['pos'] if b['ok'] else 'failure', 'match up to %d' % a['pos'] if a['ok'] else 'failure')
        return None

    def shrinks(self, item, msg):
        if item['attrs']:
            yield dict(item, attrs=[])
            if len(item['attrs']) > 1: yield dict(item, attrs=item['attrs'][:-1])
        g = Gram.from_json(item['g'])
        for h in dyn.shrink_gram(g, set(g.names()) if len(g.rules) == 1 else set(), dyn.valid):
            yield dict(item, g=h.to_json())

    def cost(self, item):
        g = Gram.from_json(item['g'])
        return 20 * g.size() + 10 * len(g.rules) + 5 * sum(1 for r in g.rules if r[1]) + 8 * len(item['attrs']) \
            + 3 * sum(len(x[1]) for _, _, e in g.rules for x in walk(e) if x[0] in ('lit', 'cls'))

    def describe(self, item):
        return '  oak! {\n    ' + ''.join('#![%s]\n    ' % a for a in item['attrs']) + peg.macro_body(Gram.from_json(item['g'])).replace('\n', '\n    ') + '\n  }'
