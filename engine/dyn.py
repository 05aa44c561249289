"""Checks that compile generated grammars and observe the generated functions."""
import json, random
import peg, gen, build, core
from peg import Gram, walk, children, with_children, UNARY, I, unitlike
from core import Check

FILE_START = 1000

def fuel_for(ref):
    return 20000 + 100 * ref['steps']

class Prepared:
    """A grammar with its reference typing and interpreter."""
    def __init__(self, g, typed=True):
        self.g = g
        self.ty = None
        self.ill = None
        if typed:
            k, t = peg.typing(g)
            if k == 'ok': self.ty = t
            else: self.ill = '%s: %s' % (k, t)
        self.it = peg.Interp(g, self.ty)
        if g.stream == 'file': self.it.span_base = FILE_START
        self.names = g.names()
        self.cache = {}

    def ref(self, rule, text, start, value, limit=30000):
        k = (rule, text, start, value)
        r = self.cache.get(k)
        if r is None:
            try:
                r = self.it.run(rule, text, start, value, limit)
            except peg.TooLong:
                r = 'toolong'
            self.cache[k] = r
        return None if r == 'toolong' else r

def diag_text(errs):
    if isinstance(errs, str): return errs
    return '; '.join(repr(e)[:220] for e in errs[:3])

# ------------------------------------------------------------------ shrinking of grammars
def shrink_expr(e, leafs=True):
    """Smaller variants of an expression, big steps first."""
    k = e[0]
    cs = children(e)
    for c in cs:
        yield c
    if leafs and k not in ('lit',):
        yield ('lit', 'a')
    if leafs and k not in ('lit', 'any'):
        yield ('any',)
    if k in ('seq', 'alt') and len(cs) > 2:
        for i in range(len(cs)):
            yield (k,) + tuple(cs[:i] + cs[i + 1:])
    if k == 'lit' and len(e[1]) > 1:
        yield ('lit', e[1][:1])
        yield ('lit', e[1][1:])
    if k == 'lit' and len(e[1]) == 1 and e[1] != 'a':
        yield ('lit', 'a')
    if k == 'cls':
        raw = e[1]
        if raw != 'a': yield ('cls', 'a')
        for i in range(len(raw)):
            r = raw[:i] + raw[i + 1:]
            try:
                if r and peg.class_intervals(r): yield ('cls', r)
            except peg.BadClass:
                pass
    if k == 'act' and e[3]:
        yield ('act', e[1], e[2], False) + e[4:]
    if k == 'act' and len(e) > 4:
        yield e[:4]
    if k in ('plus', 'star'):
        yield ('opt', e[1])
    for i, c in enumerate(cs):
        for d in shrink_expr(c, leafs):
            yield with_children(e, cs[:i] + [d] + cs[i + 1:])

def fix_arity(g):
    """Arities of the actions follow the operands after shrinking; -> None when impossible."""
    k, ty = peg.typing(g)
    if k != 'ok':
        return g
    need = {}
    for n, t, e in g.rules:
        for x in walk(e):
            if x[0] == 'act' and x[2] in g.fns:
                need.setdefault(x[2], set())
                try:
                    need[x[2]].add(peg.card(ty.surface(x[1])))
                except (peg.IllTyped, peg.Unsupported):
                    pass
    fns = {}
    for f, (ret, ar) in g.fns.items():
        if f in need:
            s = need[f]
            if len(s) > 1 and ar not in s: return None
            fns[f] = (ret, ar if ar in s or not s else min(s))
            if len(s) > 1:
                return None if len(s - {ar}) else g
    return g.copy(fns=fns)

def arities_ok(g, ty):
    """Every call of an action whose value is needed has the arity of its function (reference check of generated items)."""
    for n, t, e in g.rules:
        for x in walk(e):
            if x[0] == 'act' and x[2] in g.fns:
                try:
                    c = peg.card(ty.surface(x[1]))
                except (peg.IllTyped, peg.Unsupported):
                    continue
                yield x[2], c

def valid(g, need_typed=True):
    if not peg.WF(g).ok: return False
    if need_typed:
        k, ty = peg.typing(g, True)
        if k != 'ok': return False
        if any(g.fns[f][1] != c for f, c in arities_ok(g, ty)):
            # under a unit context the action is not called: only refuse what could be called
            return False
    return True

def rules_called(e):
    return {x[1] for x in walk(e) if x[0] == 'nt'}

def shrink_gram(g, keep, pred0=valid):
    """Smaller grammars; `keep`: rules that must stay."""
    def pred(h):
        names = set(h.names())
        if any(not rules_called(e) <= names for _, _, e in h.rules): return False
        try:
            return pred0(h)
        except (KeyError, RecursionError):
            return False
    for i in range(len(g.items)):
        yield g.copy(items=g.items[:i] + g.items[i + 1:])
    # remove rules
    for i, (n, t, e) in enumerate(g.rules):
        if n in keep: continue
        rest = [r for j, r in enumerate(g.rules) if j != i]
        if not any(n in rules_called(r[2]) for r in rest):
            h = g.copy(rules=rest)
            if pred(h): yield h
    # remove type annotations, inline
    for i, (n, t, e) in enumerate(g.rules):
        if t is not None:
            h = g.copy(rules=g.rules[:i] + [(n, None, e)] + g.rules[i + 1:])
            if pred(h): yield h
        if n not in rules_called(e) and any(n in rules_called(r[2]) for r in g.rules):
            body = e if t is None else ('asc', e, t)
            def inl(x):
                return body if x[0] == 'nt' and x[1] == n else x
            h = g.copy(rules=[(m, u, peg.map_expr(inl, f) if m != n else f) for m, u, f in g.rules])
            if h.size() < 60 and pred(h): yield h
    for i, (n, t, e) in enumerate(g.rules):
        for d in shrink_expr(e):
            h = g.copy(rules=g.rules[:i] + [(n, t, d)] + g.rules[i + 1:])
            h = fix_arity(h)
            if h is None: continue
            used = {x[2] for _, _, b in h.rules for x in walk(b) if x[0] == 'act'}
            h.fns = {f: v for f, v in h.fns.items() if f in used}
            try:
                if pred(h): yield h
            except Exception:
                pass

def shrink_text(s):
    n = len(s)
    for w in (n // 2, n // 4, 2, 1):
        if w >= 1:
            for i in range(0, n - w + 1, max(1, w)):
                yield s[:i] + s[i + w:]
    for i, c in enumerate(s):
        if c not in 'abc\n' : yield s[:i] + 'a' + s[i + 1:]

# ------------------------------------------------------------------ base
class DynCheck(Check):
    inputs = 22
    typed = True
    cpu = 12
    modes = 'pr'
    stack = 256             # megabytes
    starts = False          # also start in the middle of the input / on a used state

    def opts(self, rng, k):
        return gen.Opts()

    big = 0.02              # share of grammars with a big rule
    recursive = 0.15        # share of grammars with recursive rules whose types are inferred
    def make_gram(self, rng, k):
        if self.typed and rng.random() < self.recursive:
            g = gen.recursive_gram(rng)
            if g is not None: return g
        if rng.random() < self.big:
            g = gen.big_gram(rng, self.opts(rng, k))
            if g is not None: return g
        return gen.Gen(rng, self.opts(rng, k)).grammar()

    def make_cases(self, g, rng):
        inp = gen.Inputs(g, rng)
        out = []
        for n in g.names():
            for s in inp.sample(n, self.inputs):
                skip, again = 0, 0
                if self.starts and rng.random() < 0.3:
                    skip = rng.randint(0, min(3, len(s)))
                    again = int(rng.random() < 0.4)
                for m in self.modes:
                    out.append([n, m, skip, again, s])
        return out

    def make_item(self, rng, k, tier):
        g = self.make_gram(rng, k)
        return {'g': g.to_json(), 'cases': self.make_cases(g, rng)}

    # -- evaluation
    def grams(self, item):
        """The grammars of the modules of an item. The first one is the reference."""
        return [Gram.from_json(item['g'])]

    def module_text(self, name, g, item, j):
        return peg.module(name, g)

    def case_list(self, item, preps):
        """-> list of (module index, function id, fuel, skip, again, input)."""
        out = []
        p = preps[0]
        idx = {n: i for i, n in enumerate(p.names)}
        for rule, mode, skip, again, s in item['cases']:
            ref = p.ref(rule, s, skip, mode == 'p')
            fuel = fuel_for(ref) * (2 if again else 1) if ref else 0
            for j in range(len(preps)):
                out.append((j, 2 * idx[rule] + (mode == 'r'), fuel, skip, again, s) if ref else None)
        return out

    def compile_message(self, item, j, errs):
        return 'compile: the grammar is well-formed and well-typed but does not compile: ' + diag_text(errs)

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        verdicts = [None] * len(items)
        mods, owner = [], []
        preps = []
        for i, it in enumerate(items):
            gs = self.grams(it)
            ps = [Prepared(g, self.typed) for g in gs]
            preps.append(ps)
            for j, g in enumerate(gs):
                owner.append((i, j))
                mods.append(self.module_text('m%d' % len(mods), g, it, j))
        b = build.Batch(art, workdir, mods, prelude=self.prelude(items)).compile()
        if stats is not None: stats.add('grammars compiled', sum(1 for e in b.errors if e is None))
        where = {}
        skipped = set()
        for m, (i, j) in enumerate(owner):
            where[(i, j)] = m
            if b.errors[m] is not None and i not in skipped:
                if b.errors[m] != 'HANG': verdicts[i] = self.compile_message(items[i], j, b.errors[m])
                skipped.add(i)
        cases, back = [], []
        plans = []
        for i, it in enumerate(items):
            plan = []
            if i not in skipped:
                for c in self.case_list(it, preps[i]):
                    if c is None:
                        plan.append(None)
                        continue
                    j, fun, fuel, skip, again, s = c
                    plan.append(len(cases))
                    cases.append((b.order[where[(i, j)]], fun, fuel, skip, again, s))
            plans.append(plan)
        obs = build.run_cases(b.binary, cases, workdir, cpu=self.cpu, stack=self.stack) if cases else []
        if stats is not None: stats.evaluations += len(cases)
        for i, it in enumerate(items):
            if i not in skipped:
                os_ = [None if q is None else obs[q] for q in plans[i]]
                bad = self.screen(it, preps[i], os_)
                verdicts[i] = bad or self.judge(it, preps[i], os_, stats)
                if stats is not None and not stats.samples and os_:
                    self.sample(stats, it, preps[i], os_)
        return verdicts

    def prelude(self, items):
        return ''

    def screen(self, item, preps, obs):
        """Calls that did not return."""
        n = len(preps)
        for q, o in enumerate(obs):
            if o is None or o.kind in ('OBS', 'SKIPPED', 'HANG') or item.get('cases') is None: continue
            c = item['cases'][q // n]
            what = 'parse' if c[1] == 'p' else 'recognize'
            where = '%s_%s on %r%s' % (what, c[0], c[4], ' from character %d' % c[2] if c[2] else '')
            item['_case'] = c
            if o.kind == 'FUEL':
                return 'nontermination: %s does not terminate (reference: %d steps)' % (where, preps[0].ref(c[0], c[4], c[2], c[1] == 'p')['steps'])
            if o.kind == 'CRASH':
                return 'crash: %s crashes (%s)' % (where, o.msg)
            return 'panic: %s panics: %s' % (where, o.msg)
        return None

    def judge(self, item, preps, obs, stats):
        """Default: one module, case by case."""
        p = preps[0]
        for c, o in zip(item['cases'], obs):
            if o is None or o.kind != 'OBS': continue
            rule, mode, skip, again, s = c
            ref = p.ref(rule, s, skip, mode == 'p')
            if stats is not None:
                if self.interesting(c, ref, p):
                    stats.nontrivial((p.g.key(), tuple(c)))
                stats.add('match' if ref['ok'] else 'fail')
            m = self.compare(p, c, o, ref)
            if m:
                item['_case'] = c
                return '%s: %s_%s on %r%s: %s' % (m[0], 'parse' if mode == 'p' else 'recognize', rule, s,
                                                  (' from character %d' % skip if skip else '') + (' on a used state' if again else ''), m[1])
        return None

    def interesting(self, case, ref, prep):
        return ref['steps'] >= 4 and (ref['farc'] > case[2] or (ref['ok'] and ref['pos'] > ref['start']))

    def compare(self, prep, case, obs, ref):
        raise NotImplementedError

    def sample(self, stats, item, preps, obs):
        p = preps[0]
        c = None
        for q, (cc, o) in enumerate(zip(item['cases'], obs)):
            if o is not None and o.kind == 'OBS' and len(cc[4]) >= 2: c, oo = cc, o
        if c is None: return
        stats.sample({'grammar': peg.macro_body(p.g), 'call': '%s_%s' % ({'p': 'parse', 'r': 'recognize'}[c[1]], c[0]), 'input': c[4], 'observed': oo.brief()})

    # -- shrinking
    def shrinks(self, item, msg):
        c = item.pop('_case', None)
        base = {k: v for k, v in item.items() if not k.startswith('_')}
        if len(base['cases']) > 1:
            if c is not None:
                yield dict(base, cases=[x for x in base['cases'] if x[0] == c[0] and x[4] == c[4] and x[2] == c[2]])
                yield dict(base, cases=[c])
            if not msg.startswith('compile'):
                half = len(base['cases']) // 2
                if half > 1:
                    yield dict(base, cases=base['cases'][:half])
                    yield dict(base, cases=base['cases'][half:])
        if msg.startswith('compile') and base['cases']:
            yield dict(base, cases=[])
        g = Gram.from_json(item['g'])
        if msg.startswith('nontermination') and g.stream != 'fuel' and not any(x[0] == 'span' for _, _, e in g.rules for x in walk(e)):
            yield dict(base, g=g.copy(stream='fuel').to_json())
        if g.stream != 'str' and not msg.startswith('nontermination'):
            yield dict(base, g=g.copy(stream='str').to_json())
        keep = {c[0] for c in base['cases']}
        if not keep and len(g.rules) == 1: keep = set(g.names())
        if len(base['cases']) <= 4:
            for s in {c[4] for c in base['cases']}:
                for t in shrink_text(s):
                    yield dict(base, cases=[[c[0], c[1], min(c[2], len(t)), c[3], t] if c[4] == s else c for c in base['cases']])
            for c in base['cases']:
                if c[3]: yield dict(base, cases=[x[:3] + [0] + x[4:] for x in base['cases']])
                if c[2]: yield dict(base, cases=[x[:2] + [0] + x[3:4] + [x[4][x[2]:]] for x in base['cases']])
        for h in shrink_gram(g, keep, self.valid_gram):
            yield dict(base, g=h.to_json())

    def valid_gram(self, g):
        return valid(g, self.typed)

    def cost(self, item):
        g = Gram.from_json(item['g'])
        cs = item['cases']
        return 20 * g.size() + 10 * len(g.rules) + 3 * sum(len(x[1]) for _, _, e in g.rules for x in walk(e) if x[0] in ('lit', 'cls')) \
            + sum(8 + 2 * len(c[4]) + 2 * c[2] + 4 * c[3] + sum(ord(ch) > 127 for ch in c[4]) + sum(ch not in 'abc' for ch in c[4]) for c in cs) \
            + 5 * sum(1 for r in g.rules if r[1]) + {'str': 0, 'fuel': 1}.get(g.stream, 2) + len(item.get('extra') or []) + 30 * len(g.items)

    def describe(self, item):
        g = Gram.from_json(item['g'])
        out = ['  oak! {'] + ['    ' + l for l in peg.macro_body(g).split('\n')] + ['  }']
        for c in item['cases'][:6]:
            out.append('  %s_%s(%r)%s%s' % ({'p': 'parse', 'r': 'recognize'}.get(c[1], c[1]), c[0], c[4], ' from character %d' % c[2] if c[2] else '', ' on a used state' if c[3] else ''))
        return '\n'.join(out)
