"""The cost of a grammar: size of the generated code and end of the expansion (C25)."""
import os, re, resource, signal
import peg, gen, build, dyn
from peg import Gram, WF, children, with_children
from core import Check
from props import register

LEVELS = (1, 2, 4, 8, 16)
LIMIT = 5            # growth allowed when the number of levels doubles: proportional is 2, quadratic is 4
DEEP, DEEP_NESTED = 40, 24      # levels of the grammars of which only the end of the expansion is checked (rules, nested)
TOGETHER, ALONE = 75, 35         # seconds of processor granted to the modules together, then to each alone
FACTOR, LONGEST = 40, 200        # an expansion may last FACTOR times longer than the one of the previous levels, within LONGEST seconds

def paths(e, p=()):
    yield p, e
    for i, c in enumerate(children(e)):
        yield from paths(c, p + (i,))

def put(e, p, x):
    if not p: return x
    cs = list(children(e))
    cs[p[0]] = put(cs[p[0]], p[1:], x)
    return with_children(e, cs)

def nested(g, p, k):
    """`k` levels of the expression of the grammar around itself, at the path `p`."""
    n, t, e = g.rules[0]
    y = e
    for _ in range(k - 1): y = put(e, p, y)
    return g.copy(rules=[(n, t, y)])

def chained(g, ps, back, k):
    """`k` rules, each calling the next one at all the paths `ps`, and a previous one, behind a character, at `back`."""
    n, t, e = g.rules[0]
    rules = []
    for i in range(k):
        y = e
        for p in ps: y = put(y, p, ('nt', 'l%d' % (i + 1)))
        if back is not None: y = put(y, back, ('seq', ('lit', 'z'), ('nt', 'l%d' % (i // 2))))
        rules.append(('l%d' % i, t, y))
    rules.append(('l%d' % k, t, ('lit', 'x')))
    return g.copy(rules=rules)

def prefix(a, b):
    return a[:len(b)] == b or b[:len(a)] == a

class Stopped(Exception):
    pass

def expand(art, workdir, mods, cpu):
    """-> {module: (size of the expansion without spaces, whether there was an error)}; raises Stopped when there is no answer"""
    src = os.path.join(workdir, 'e.rs')
    bt = build.Batch(art, workdir, [m for _, m in mods], main=False)
    text, ranges = bt.assemble(list(range(len(mods))))
    with open(src, 'w') as f: f.write(text)
    rc, diags, crash, texts = build.expanded(art, src, len(mods), wall=4 * cpu, cpu=cpu)
    if rc is None or rc < 0 or 'memory allocation' in crash or 'overflowed its stack' in crash: raise Stopped()
    sizes = {i: len(re.sub(r'\s+', '', t)) for i, t in texts.items()}
    bad = set()
    for x in diags:
        if x.level != 'error': continue
        for pr, l0, c0, l1, c1, fn in x.lines:
            bad |= {mods[i][0] for i, (a, b) in ranges.items() if fn == src and a <= l0 <= b}
    return {i: (sizes[i], i in bad) for i, _ in mods if i in sizes}

def ends(art, workdir, mod, previous, cpu):
    """Expands a module alone -> its result, False when it does not end in a time in relation with the one of the previous levels, None when that cannot be told."""
    try: return expand(art, workdir, [(0, mod)], cpu).get(0, (0, True))
    except Stopped: pass
    if previous is None: return None
    t0 = spent()
    try: expand(art, workdir, [(0, previous)], 2 * cpu)
    except Stopped: return None
    limit = FACTOR * (spent() - t0)
    if limit <= cpu: return False
    try: return expand(art, workdir, [(0, mod)], int(min(limit, LONGEST)) + 1).get(0, (0, True))
    except Stopped: return False if limit <= LONGEST else None

def spent():
    u = resource.getrusage(resource.RUSAGE_CHILDREN)
    return u.ru_utime + u.ru_stime

@register
class C25(Check):
    id = 'C25'
    technique = 'property-based testing: random grammars iterated (an expression nested in itself, rules calling each other from several places), metamorphic relation between the sizes of the expansions, end of the expansion'
    rule = 'Random expression with a hole filled with itself 1, 2, 4, 8, 16 times, or chain of 1 to 16 (and 40) rules calling the next one from several places and a previous one; the code may at most grow %d times when the levels double, and the expansion must end. Non-trivial: expansions without error of at least 4 levels.' % LIMIT
    quick = (16, 24)
    thorough = (160, 40)
    min_nontrivial = 150

    def make_item(self, rng, k, tier):
        kind = rng.choice(['nest', 'nest', 'rules'])
        for _ in range(400):
            if kind == 'nest':
                o = dict(rules=(1, 1), rec=0, wide=0, maxsize=14, depth=rng.choice([2, 3, 3]), items=0, paths=0.4)
                if rng.random() < 0.35: o.update(values=False, unit_rules=1.0)
            else: o = dict(rules=(1, 1), rec=0, wide=0, maxsize=16, depth=rng.choice([2, 3, 3]), items=0, values=False, unit_rules=1.0)
            g = gen.Gen(rng, gen.Opts(**o)).grammar()
            n, t, e = g.rules[0]
            ps = [p for p, x in paths(e) if p]
            if not ps: continue
            if kind == 'nest':
                p = rng.choice(ps)
                hs = [nested(g, p, 2), nested(g, p, 4)]
                it = {'kind': kind, 'g': g.to_json(), 'path': list(p)}
            else:
                if t is None: g = g.copy(rules=[(n, rng.choice(['()', '(^)']), e)])
                rng.shuffle(ps)
                hole = []
                for p in ps:
                    if len(hole) < rng.choice([2, 2, 3, 4]) and not any(prefix(p, q) for q in hole): hole.append(p)
                if len(hole) < 2: continue
                back = hole.pop() if len(hole) > 2 and rng.random() < 0.6 else None
                hs = [chained(g, hole, back, 3)]
                it = {'kind': kind, 'g': g.to_json(), 'paths': [list(p) for p in hole], 'back': back and list(back)}
            if all(WF(h).ok and peg.typing(h)[0] == 'ok' for h in hs): return it
        return None

    def grammar(self, it, k):
        g = Gram.from_json(it['g'])
        if it['kind'] == 'nest': return nested(g, tuple(it['path']), k)
        return chained(g, [tuple(p) for p in it['paths']], it['back'] and tuple(it['back']), k)

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        out = [None] * len(items)
        last = {}
        todo = list(range(len(items)))
        for k in LEVELS + (DEEP,):
            if not todo: break
            mods = [(i, peg.module('m%d' % i, self.grammar(items[i], k))) for i in todo]
            try:
                sizes = expand(art, workdir, self.renumber(mods), 15 if shrinking else TOGETHER)
                sizes = {todo[j]: v for j, v in sizes.items()}
            except Stopped:
                sizes, stopped = {}, 0
                for i, m in mods:
                    if stopped: continue
                    before = peg.module('m0', self.grammar(items[i], last[i][0])) if i in last else None
                    r = ends(art, workdir, self.renumber([(i, m)])[0][1], before, 8 if shrinking else ALONE)
                    if r: sizes[i] = r
                    elif r is None:
                        stopped += before is not None
                        if before is None: build.NO_ANSWER.append('no answer on\n' + m)
                        elif stats is not None: stats.add('too slow to tell')
                    else:
                        stopped += 1
                        out[i] = 'end: the expansion of %d levels does not end, or exhausts the memory; the one of %d levels gives %d characters' % (k if k != DEEP or items[i]['kind'] == 'rules' else DEEP_NESTED, last[i][0], last[i][1])
            keep = []
            for i in todo:
                if i not in sizes or out[i]: continue
                n, bad = sizes[i]
                if stats is not None:
                    stats.evaluations += 1
                    if bad: stats.add('errors')
                    if k == 16: stats.add('levels 16')
                    if k == DEEP: stats.add('levels %d' % (DEEP if items[i]['kind'] == 'rules' else DEEP_NESTED))
                if bad: continue
                if i in last and k != DEEP:
                    r = n / last[i][1]
                    if stats is not None: stats.counts['max growth (percent)'] = max(stats.counts.get('max growth (percent)', 0), int(100 * r))
                    if r > LIMIT:
                        out[i] = 'size: the code of %d levels has %d characters, the one of %d levels %d' % (last[i][0], last[i][1], k, n)
                        continue
                if stats is not None and k >= 4: stats.nontrivial((items[i]['g'], str(items[i].get('path')), str(items[i].get('paths')), k))
                last[i] = (k, n)
                keep.append(i)
            todo = keep
        if stats is not None:
            for i, it in enumerate(items):
                if i in last and last[i][0] >= 16: stats.sample({'grammar of 2 levels': peg.macro_body(self.grammar(it, 2)), 'levels': last[i][0], 'characters': last[i][1]}, 2)
        return out

    @staticmethod
    def renumber(mods):
        return [(j, m.replace('mod m%d ' % i, 'mod m%d ' % j, 1)) for j, (i, m) in enumerate(mods)]

    def shrinks(self, item, msg):
        g = Gram.from_json(item['g'])
        n, t, e = g.rules[0]
        ps = [item['path']] if item['kind'] == 'nest' else item['paths'] + ([item['back']] if item['back'] else [])
        if item['kind'] == 'rules':
            if item['back']: yield dict(item, back=None)
            for j in range(len(item['paths'])):
                if len(item['paths']) > 1: yield dict(item, paths=item['paths'][:j] + item['paths'][j + 1:])
        # simplify what is not on the way to a hole
        for p, x in paths(e):
            if children(x) and not any(prefix(p, tuple(q)) for q in ps):
                yield dict(item, g=g.copy(rules=[(n, t, put(e, p, ('lit', 'a')))]).to_json())
                for c in children(x): yield dict(item, g=g.copy(rules=[(n, t, put(e, p, c))]).to_json())
        # remove a sibling or an operator on the way
        def moved(q, p, j):
            # the path q once the child j at p has been removed
            return q[:len(p)] + [q[len(p)] - (1 if q[len(p)] > j else 0)] + q[len(p) + 1:] if len(q) > len(p) and q[:len(p)] == p else q
        for p, x in paths(e):
            p = list(p)
            if x[0] in ('seq', 'alt') and len(x) > 3:
                for j in range(len(x) - 1):
                    if any(q[:len(p) + 1] == p + [j] for q in ps): continue
                    h = g.copy(rules=[(n, t, put(e, tuple(p), (x[0],) + x[1:j + 1] + x[j + 2:]))]).to_json()
                    qs = [moved(q, p, j) for q in ps]
                    if item['kind'] == 'nest': yield dict(item, g=h, path=qs[0])
                    else:
                        b = qs[len(item['paths']):]
                        yield dict(item, g=h, paths=qs[:len(item['paths'])], back=b[0] if b else None)
            elif len(children(x)) == 1 and any(len(q) > len(p) and q[:len(p)] == p for q in ps):
                h = g.copy(rules=[(n, t, put(e, tuple(p), children(x)[0]))]).to_json()
                qs = [q[:len(p)] + q[len(p) + 1:] if len(q) > len(p) and q[:len(p)] == p else q for q in ps]
                if item['kind'] == 'nest': yield dict(item, g=h, path=qs[0])
                else:
                    b = qs[len(item['paths']):]
                    yield dict(item, g=h, paths=qs[:len(item['paths'])], back=b[0] if b else None)

    def cost(self, item):
        return 20 * Gram.from_json(item['g']).size() + 30 * len(item.get('paths', [])) + (25 if item.get('back') else 0)

    def describe(self, item):
        return '  3 levels:\n  oak! {\n    ' + peg.macro_body(self.grammar(item, 3)).replace('\n', '\n    ') + '\n  }'
