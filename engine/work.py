"""The work done by the generated parsers, long inputs (C26)."""
import peg, gen, dyn
from peg import Gram, WF, walk
from props import register, outcome
from cost import nested, paths

FACTOR, CONSTANT = 10, 100

@register
class C26(dyn.DynCheck):
    id = 'C26'
    technique = 'property-based testing: operations counted by the stream of the generated parsers against the steps of the reference interpreter, long inputs in a small stack'
    rule = 'Random grammars with nested and recursive constructs on a counting stream: at most %d operations for each step of the reference (and a constant %d); repetitions run on inputs of hundreds to tens of thousands of items (among which the powers of 2 and their neighbours) in a stack of 4 MB. Non-trivial: at least 30 steps of the reference.' % (FACTOR, CONSTANT)
    quick = (24, 40)
    thorough = (300, 60)
    min_nontrivial = 1500
    cpu = 40

    def make_item(self, rng, k, tier):
        if k % 8 == 7:
            it = self.long_item(rng)
            if it is not None: return it
        if k % 8 in (2, 5):
            it = self.deep_item(rng)
            if it is not None: return it
        g = None
        if k % 8 in (1, 4):
            for _ in range(100):
                h = gen.Gen(rng, gen.Opts(rules=(1, 1), rec=0, maxsize=12, depth=3, pred=4.0, values=False, unit_rules=1.0, streams=[('fuel', 1)])).grammar()
                ps = [p for p, x in paths(h.rules[0][2]) if p]
                if not ps: continue
                h = nested(h, rng.choice(ps), rng.choice([3, 4, 5, 6]))
                if h.size() <= 90 and dyn.valid(h):
                    g = h
                    break
        if g is None:
            g = gen.Gen(rng, gen.Opts(streams=[('fuel', 1)], rec=0.8, depth=5, maxsize=60, pred=3.0 if k % 2 else 2.0, act=3.0 if k % 3 else 1.0)).grammar()
        inp = gen.Inputs(g, rng)
        cases = []
        for n in g.names():
            ws = inp.sample(n, 10)
            big = inp.sample(n, 30, maxlen=300)
            ws += sorted(big, key=len)[-6:]
            for s in dict.fromkeys(ws):
                for m in 'pr': cases.append([n, m, 0, 0, s])
        return {'g': g.to_json(), 'cases': cases}

    def deep_item(self, rng):
        """Rules calling each other recursively between brackets, on nested brackets."""
        for _ in range(60):
            g = gen.Gen(rng, gen.Opts(rules=(1, 2), rec=0, maxsize=16, depth=3, act=2.0, streams=[('fuel', 1)], items=0, unit_rules=0.2)).grammar()
            n = g.names()[0]
            T = peg.typing(g)[1].rule_ty[n]
            m = rng.choice([1, 1, 2, 3])
            deep = ['deep%d' % i for i in range(m)]
            pairs = rng.sample([('(', ')'), ('[', ']'), ('<', '>'), ('{', ''), ('-', '')], rng.choice([1, 2, 2]))
            fns = dict(g.fns)
            rules = []
            inner = []
            for i, d in enumerate(deep):
                bs = [('nt', n)] if i == 0 or rng.random() < 0.5 else []
                for a, b in pairs:
                    e = ('nt', rng.choice(deep) if i == m - 1 else deep[i + 1])
                    w = rng.randrange(5)
                    if w == 0 and peg.callable_ty(T) and 'String' not in peg.show_ty(T):      # strings are shown in hexadecimal
                        f = 'act_d%d' % len(fns)
                        fns[f] = (peg.show_ty(T), peg.card(T))
                        e = ('asc', ('act', e, f, False), peg.show_ty(T)) if rng.random() < 0.5 and T[0] == 'R' else ('act', e, f, False) if T[0] == 'R' else e
                    elif w == 1: e = ('seq', e, ('not', ('lit', '??')))
                    elif w == 2: e = ('alt', e, ('nt', n))
                    elif w == 3: e = ('seq', ('and', ('any',)), e)
                    bs.append(('seq', ('lit', a), e) + ((('lit', b),) if b else ()))
                    inner.append((a, b))
                if len(bs) > 1 and rng.random() < 0.5: bs.append(bs.pop(0))
                rules.append((d, None, ('alt',) + tuple(bs) if len(bs) > 1 else bs[0]))
            used = {x[2] for _, _, e in rules + g.rules for x in walk(e) if x[0] == 'act'}
            h = g.copy(rules=g.rules + rules, fns={k: v for k, v in fns.items() if k in used})
            if not dyn.valid(h): continue
            leaf = [w for w in gen.Inputs(h, rng).sample(n, 8, maxlen=8)]
            cases = []
            for w in leaf:
                for depth in (1, 3, 6, 12, 25):
                    s, t = '', ''
                    for _ in range(depth):
                        a, b = rng.choice(inner)
                        s, t = s + a, b + t
                    if rng.random() < 0.15: t = t[:rng.randint(0, len(t))]
                    for q in 'pr': cases.append([rng.choice(deep), q, 0, 0, s + w + t])
            return {'g': h.to_json(), 'cases': cases}
        return None

    def long_item(self, rng):
        """A repetition, on thousands of items."""
        for _ in range(60):
            g = gen.Gen(rng, gen.Opts(rules=(1, 2), rec=0, maxsize=16, depth=3, act=1.0, streams=[('fuel', 1)], items=0)).grammar()
            n = g.names()[0]
            e = ('star', ('nt', n))
            m = rng.randrange(4)
            if m == 0: e = ('plus', ('nt', n))
            elif m == 1: e = ('star', ('seq', ('not', ('lit', '#')), ('nt', n)))
            elif m == 2: e = ('plus', ('alt', ('asc', ('nt', n), '()'), ('lit', '##')))
            h = g.copy(rules=g.rules + [('many', None, e)])
            if not dyn.valid(h): continue
            p = dyn.Prepared(h)
            inp = gen.Inputs(h, rng)
            good = []
            for w in inp.sample(n, 12, maxlen=12):
                r = p.ref('many', w * 3, 0, False) if w else None
                if r and r['ok'] and r['full']: good.append(w)
            if not good: continue
            w = rng.choice(good)
            r = p.ref('many', w * 3, 0, False)
            most = 600000 // max(1, r['steps'] // 3)
            counts = [min(rng.choice([1000, 4000, 8000, 65535, 65536, 65537]), most)] + rng.sample([127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 768, 1023, 1024, 1025], 3)
            cases = []
            for count in counts:
                s = w * min(count, most)
                if rng.random() < 0.5: s += rng.choice(good) + '#'
                cases += [['many', 'p', 0, 0, s], ['many', 'r', 0, 0, s]]
            return {'g': h.to_json(), 'cases': cases, 'long': True}
        return None

    LIMIT = 800000
    def case_list(self, item, preps):
        p = preps[0]
        idx = {n: i for i, n in enumerate(p.names)}
        out = []
        for rule, mode, skip, again, s in item['cases']:
            r = p.ref(rule, s, 0, mode == 'p', self.LIMIT if item.get('long') else 30000)
            out.append((0, 2 * idx[rule] + (mode == 'r'), 20000 + 1000 * r['steps'], 0, 0, s) if r else None)
        return out

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        out = [None] * len(items)
        for long in (False, True):
            idx = [i for i, it in enumerate(items) if bool(it.get('long')) == long]
            if not idx: continue
            self.stack = 4 if long else 256
            for i, v in zip(idx, super().evaluate(art, [items[i] for i in idx], workdir, stats, shrinking)): out[i] = v
        return out

    def interesting(self, case, ref, prep):
        return ref['steps'] >= 30

    def compare(self, prep, case, o, ref):
        bound = FACTOR * ref['steps'] + CONSTANT
        if o.fuel > bound:
            return ('work', '%d operations on the stream, the evaluation of the expressions takes %d steps' % (o.fuel, ref['steps']))
        return outcome(prep, case, o, ref)

    def screen(self, item, preps, obs):
        for q, o in enumerate(obs):
            if o is not None and o.kind == 'FUEL':
                c = item['cases'][q]
                item['_case'] = c
                return 'work: %s_%s on %r does more than 1000 operations for each step of the evaluation' % ('parse' if c[1] == 'p' else 'recognize', c[0], c[4][:60])
        return super().screen(item, preps, obs)

    def judge(self, item, preps, obs, stats):
        if stats is not None:
            for c, o in zip(item['cases'], obs):
                if o is None or o.kind != 'OBS': continue
                r = preps[0].ref(c[0], c[4], 0, c[1] == 'p')
                if r['steps'] >= 30: stats.counts['max operations per 100 steps'] = max(stats.counts.get('max operations per 100 steps', 0), 100 * o.fuel // r['steps'])
                if item.get('long'): stats.counts['max length'] = max(stats.counts.get('max length', 0), r['pos'] or 0)
        return super().judge(item, preps, obs, stats)

    def shrinks(self, item, msg):
        if item.get('long'):
            for c in item['cases']:
                if len(c[4]) > 40 and not msg.startswith('crash'): yield dict(item, cases=[c[:4] + [c[4][:len(c[4]) // 2]]])
            if len(item['cases']) > 1:
                for c in item['cases']: yield dict({k: v for k, v in item.items() if k != '_case'}, cases=[c])
            g = Gram.from_json(item['g'])
            for h in dyn.shrink_gram(g, {'many'}, dyn.valid): yield dict({k: v for k, v in item.items() if k != '_case'}, g=h.to_json())
            return
        for x in super().shrinks(item, msg):
            if x['g']['stream'] == 'fuel': yield x

    def describe(self, item):
        if not item.get('long'): return super().describe(item)
        return super().describe(dict(item, cases=[c[:4] + [c[4][:60] + ('...' if len(c[4]) > 60 else '')] for c in item['cases']]))
