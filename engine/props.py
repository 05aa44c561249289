"""The checks, one class per property."""
import random
import peg, gen, build, core, dyn
from peg import Gram, walk, I, unitlike
from dyn import DynCheck

CHECKS = {}
def register(cls):
    CHECKS[cls.id] = cls()
    return cls

GENRULE = 'Random well-formed and well-typed grammars (1 to 4 rules, type-directed generation, 6 kinds of streams), inputs derived from each rule and mutated; '

def outcome(prep, case, o, ref):
    if o.ok != ref['ok']:
        return ('outcome', '%s instead of %s (observed: %s)' % ('match' if o.ok else 'failure', 'match up to %d' % ref['pos'] if ref['ok'] else 'failure', o.brief()))
    if ref['ok'] and o.cur != ref['pos']:
        return ('position', 'stops at %d instead of %d' % (o.cur, ref['pos']))
    return None

@register
class C01(DynCheck):
    id = 'C01'
    technique = 'property-based testing: random grammars compiled by the macro, recognizers compared with a reference PEG interpreter'
    rule = GENRULE + 'non-trivial: the reference run takes at least 4 steps and reads input.'
    modes = 'r'
    inputs = 26
    starts = True
    quick = (32, 60)
    thorough = (400, 80)
    min_nontrivial = 2000
    def opts(self, rng, k):
        if k % 3 == 0: return gen.Opts(values=False, unit_rules=1.0, act=0.3, depth=5, pred=3.5, rec=0.5, span=0.3, range=0.3)
        if k % 3 == 1: return gen.Opts(depth=5, maxsize=60, rec=0.5)
        return gen.Opts()
    def compare(self, prep, case, o, ref):
        return outcome(prep, case, o, ref)

@register
class C02(DynCheck):
    id = 'C02'
    technique = 'property-based testing: differential comparison of the parser and the recognizer of each rule of random grammars'
    rule = GENRULE + 'one case = parser and recognizer of a rule on an input; non-trivial: the rule has a value and at least 4 reference steps are taken.'
    modes = 'pr'
    starts = True
    quick = (32, 55)
    thorough = (400, 80)
    min_nontrivial = 2000
    def opts(self, rng, k):
        return gen.Opts(unit_rules=0.08, span=1.5, range=1.5, depth=5 if k % 2 else 4)
    def judge(self, item, preps, obs, stats):
        p = preps[0]
        seen = {}
        for c, o in zip(item['cases'], obs):
            if o is None or o.kind != 'OBS': continue
            rule, mode, skip, again, s = c
            key = (rule, skip, again, s)
            if mode == 'p':
                seen[key] = o
                continue
            a = seen.get(key)
            if a is None: continue
            ref = p.ref(rule, s, skip, False)
            if stats is not None:
                stats.add('match' if ref['ok'] else 'fail')
                if ref['steps'] >= 4 and not unitlike(p.ty.rule_ty[rule]): stats.nontrivial((p.g.key(), key))
            va = (a.ok, a.cur if a.ok else None, a.far, a.exp)
            vb = (o.ok, o.cur if o.ok else None, o.far, o.exp)
            if va != vb:
                item['_case'] = c
                return 'disagreement: rule %s on %r: parser: %s; recognizer: %s' % (rule, s, a.brief(), o.brief())
        return None
    def shrinks(self, item, msg):
        for x in super().shrinks(item, msg):
            if msg.startswith('disagreement') and len({c[1] for c in x['cases']}) < 2: continue
            yield x

@register
class C03(DynCheck):
    id = 'C03'
    technique = 'property-based testing: AST values of random grammars compared with a reference evaluator'
    rule = GENRULE + 'non-trivial: the rule matches, its value is not unit and at least one character is consumed.'
    modes = 'p'
    starts = True
    inputs = 26
    quick = (40, 60)
    thorough = (400, 80)
    min_nontrivial = 2000
    def opts(self, rng, k):
        if k % 3 == 0: return gen.Opts(unit_rules=0.05, depth=5, act=1.0, maxsize=60)
        if k % 3 == 1: return gen.Opts(unit_rules=0.05, act=5.0, asc=2.0, enums=0.3)
        return gen.Opts(unit_rules=0.1)
    def interesting(self, case, ref, prep):
        return ref['ok'] and ref['val'] != '()' and ref['pos'] > ref['start']
    def compare(self, prep, case, o, ref):
        if o.ok and ref['ok'] and o.data != ref['val']:
            return ('value', 'builds %s instead of %s' % (o.data, ref['val']))
        return outcome(prep, case, o, ref)

def last_line(s):
    i = s.rfind('\n')
    return s if i < 0 else s[i + 1:]

def error_text(text, far_c, exp):
    """Documented text of an error at character far_c."""
    before = text[:far_c]
    line = before.count('\n') + 1
    col = len(last_line(before).encode()) + 1
    if far_c == len(text):
        snip = '<end-of-file>'
    else:
        snip, n = '', 0
        for ch in text[far_c:]:
            n += len(ch.encode())
            if n > 10: break
            snip += ch
    items = ' or '.join('`' + x + '`' for x in sorted(exp, key=lambda x: x.encode()))
    return '%d:%d: unexpected `%s`, expecting %s.' % (line, col, snip, items)

@register
class C08(DynCheck):
    id = 'C08'
    technique = 'property-based testing: farthest failure, expected items and error messages compared with a reference interpreter'
    rule = GENRULE + 'non-trivial: the farthest failure lies after the start of the input or several items are expected.'
    modes = 'pr'
    starts = True
    quick = (32, 50)
    thorough = (400, 80)
    min_nontrivial = 2000
    def opts(self, rng, k):
        return gen.Opts(odd=0.4, alt=4.0, pred=2.5, unit_rules=0.3, depth=5 if k % 2 else 4, span=0.6, range=0.6)
    def make_cases(self, g, rng):
        out = super().make_cases(g, rng)
        for c in out:
            if rng.random() < 0.3 and len(c[4]) < 40:
                i = rng.randint(0, len(c[4]))
                c[4] = c[4][:i] + rng.choice(['\n', '\r\n', 'é', '\n\n', '😀😀😀', 'xyxyxyxyxyxyx']) + c[4][i:]
                c[2] = min(c[2], len(c[4]))
        return out
    def interesting(self, case, ref, prep):
        return ref['farc'] > case[2] or len(ref['exp']) > 1
    def compare(self, prep, case, o, ref):
        if o.far != ref['far']:
            return ('farthest', 'farthest failure at %d instead of %d' % (o.far, ref['far']))
        if o.exp != ref['exp']:
            return ('expected', 'expected items %r instead of %r' % (o.exp, ref['exp']))
        if o.ok and o.res == 'F': return None
        t = error_text(case[4], ref['farc'], ref['exp'])
        if not o.debug.endswith(t):
            return ('text', 'message %r does not end with %r' % (o.debug, t))
        return None

@register
class C09(DynCheck):
    id = 'C09'
    technique = 'property-based testing: invariants of the final state of random parsers and recognizers'
    rule = GENRULE + 'non-trivial: some input is read; starts in the middle of the input and on used states included.'
    modes = 'pr'
    starts = True
    quick = (32, 50)
    thorough = (400, 80)
    min_nontrivial = 2000
    def opts(self, rng, k):
        return gen.Opts(odd=0.4, depth=5 if k % 2 else 4)
    def compare(self, prep, case, o, ref):
        text = case[4]
        n = len(text.encode())
        bounds = set()
        off = 0
        for ch in text:
            bounds.add(off)
            off += len(ch.encode())
        bounds.add(off)
        start = len(text[:case[2]].encode())
        if o.ok == o.bad: return ('state', 'both successful and failed, or neither')
        if o.ok != (o.data is not None): return ('state', 'successful is %s but data is %s' % (o.ok, o.data))
        if o.res not in 'FPE' or o.res == '!': return ('result', 'no result: ' + o.debug)
        if not (start <= o.cur <= n and o.cur in bounds): return ('bounds', 'current position %d' % o.cur)
        if not (start <= o.far <= n and o.far in bounds): return ('bounds', 'farthest position %d' % o.far)
        want = 'E' if not ref['ok'] else 'F' if ref['full'] else 'P'
        if o.res != want: return ('result', '%s instead of %s' % (o.res, want))
        if o.ok and (o.res == 'F') != (o.cur == n): return ('result', '%s at %d of %d' % (o.res, o.cur, n))
        shown = ref['val'] if case[1] == 'p' else '()'
        if o.res == 'F':
            t = 'Full match, got data `%s`.' % shown
        elif o.res == 'P':
            t = 'Partial match, got data `%s`. It stopped because:\n\t' % shown + error_text(text, ref['farc'], ref['exp'])
        else:
            t = 'Error:\n\t' + error_text(text, ref['farc'], ref['exp'])
        if o.debug != t: return ('text', '%r instead of %r' % (o.debug, t))
        return None

@register
class C10(DynCheck):
    id = 'C10'
    technique = 'property-based testing: trace of the calls of semantic actions compared with a reference evaluator'
    rule = GENRULE + 'many semantic actions, each recording its call; non-trivial: at least one action is called, or the rule contains actions that must not be called.'
    modes = 'pr'
    quick = (32, 60)
    thorough = (400, 80)
    min_nontrivial = 2000
    def opts(self, rng, k):
        return gen.Opts(act=7.0, unit_rules=0.1, enums=0.05, asc=1.5, depth=5 if k % 2 else 4, maxsize=60)
    def make_gram(self, rng, k):
        while True:
            g = super().make_gram(rng, k)
            if g.fns: return g
    def interesting(self, case, ref, prep):
        if case[1] == 'p': return len(ref['trace']) > 0
        return ref['steps'] >= 4 and ref['ok']
    def compare(self, prep, case, o, ref):
        if o.trace != ref['trace']:
            return ('calls', 'calls %s instead of %s' % (o.trace, ref['trace']))
        if case[1] == 'p' and o.ok and ref['ok'] and o.data != ref['val']:
            return ('value', 'builds %s instead of %s' % (o.data, ref['val']))
        return outcome(prep, case, o, ref)

@register
class C07(DynCheck):
    id = 'C07'
    technique = 'property-based testing: spans and ranges of random grammars compared with a reference evaluator'
    rule = GENRULE + 'spans on built-in streams, ranges on all streams; non-trivial: the value contains a non-empty span or range.'
    modes = 'p'
    starts = True
    inputs = 26
    quick = (40, 60)
    thorough = (400, 80)
    min_nontrivial = 1500
    def opts(self, rng, k):
        return gen.Opts(span=6.0, range=5.0, unit_rules=0.05, odd=0.5, act=1.5, asc=0.6, depth=5 if k % 2 else 4, nest=0.4,
                        streams=[('str', 4), ('file', 3), ('strx', 1), ('fuel', 1), ('vec', 1)])
    def make_gram(self, rng, k):
        while True:
            g = super().make_gram(rng, k)
            if any(x[0] in ('span', 'range') for _, _, e in g.rules for x in walk(e)): return g
    def interesting(self, case, ref, prep):
        if not ref['ok']: return False
        v = ref['val']
        i = 0
        while True:
            j = min([x for x in (v.find('sp', i), v.find('rg', i)) if x >= 0], default=-1)
            if j < 0: return False
            k = j + 2
            a = ''
            while k < len(v) and (v[k].isdigit() or v[k] == '-'):
                a += v[k]
                k += 1
            w = a.split('-')
            if len(w) == 2 and w[0] != w[1]: return True
            i = k
    def compare(self, prep, case, o, ref):
        if o.ok and ref['ok'] and o.data != ref['val']:
            return ('value', 'builds %s instead of %s' % (o.data, ref['val']))
        return outcome(prep, case, o, ref)

@register
class C04(DynCheck):
    id = 'C04'
    technique = 'property-based testing: return types of the generated parsers compared with a reference inference, under permutation of the rules'
    rule = 'Random well-typed grammars, each compiled with its rules in two orders; one case = the type of one parser. Non-trivial: the type is neither unit nor char.'
    quick = (32, 60)
    thorough = (400, 80)
    min_nontrivial = 600
    def opts(self, rng, k):
        return gen.Opts(unit_rules=0.05, depth=5 if k % 2 else 4, rules=(2, 5), asc=2.0, maxsize=60, call=4.0, rec=0.4)
    def make_item(self, rng, k, tier):
        g = self.make_gram(rng, k)
        perm = list(range(len(g.rules)))
        rng.shuffle(perm)
        return {'g': g.to_json(), 'cases': [[n, 't', 0, 0, ''] for n in g.names()], 'perm': perm}
    def grams(self, item):
        g = Gram.from_json(item['g'])
        n = len(g.rules)
        perm = [i for i in item['perm'] if i < n]
        return [g, g.copy(rules=[g.rules[i] for i in perm])]
    def case_list(self, item, preps):
        out = []
        for c in item['cases']:
            for j, p in enumerate(preps):
                out.append((j, 1000 + p.names.index(c[0]), 0, 0, 0, ''))
        return out
    def screen(self, item, preps, obs):
        return None
    def judge(self, item, preps, obs, stats):
        p = preps[0]
        for q, c in enumerate(item['cases']):
            want = peg.show_ty(p.ty.rule_ty[c[0]]).replace("::std::boxed::", "").replace(",)", ")")
            if stats is not None:
                stats.add(want[:12])
                if want not in ('()', 'char'): stats.nontrivial((repr(p.g.expr(c[0])), want))
            for j in (0, 1):
                got = obs[2 * q + j].msg
                if obs[2 * q + j].kind in ('HANG', 'SKIPPED'): continue
                if got != want:
                    item['_case'] = c
                    return 'type: parse_%s returns %s instead of %s%s' % (c[0], got, want, ' when the rules are declared in the order %s' % preps[1].names if j else '')
        return None
    def sample(self, stats, item, preps, obs):
        stats.sample({'grammar': peg.macro_body(preps[0].g), 'types': {c[0]: obs[2 * q].msg for q, c in enumerate(item['cases'])}})
    def shrinks(self, item, msg):
        n = len(item['g']['rules'])
        ident = list(range(n))
        if item['perm'] != ident: yield dict({k: v for k, v in item.items() if k[0] != '_'}, perm=ident)
        for x in super().shrinks(item, msg):
            m = len(x['g']['rules'])
            yield dict(x, perm=[i for i in item['perm'] if i < m]) if m == n else dict(x, perm=list(reversed(range(m))))
    def cost(self, item):
        return super().cost(item) + sum(1 for i, p in enumerate(item['perm']) if i != p)

@register
class C05(DynCheck):
    id = 'C05'
    technique = 'property-based testing: random grammars near the border of well-formedness, run on counting streams with a bound on the number of operations'
    rule = 'Random small grammars without any constraint (nullable repetitions, empty literals, hidden left recursion); those the macro accepts run on short inputs with a budget of stream operations and a bounded stack. Non-trivial: accepted, with a repetition or recursion, and some input read.'
    quick = (24, 80)
    thorough = (300, 120)
    min_nontrivial = 800
    typed = False
    cpu = 20
    FUEL = 3000000
    def make_item(self, rng, k, tier):
        while True:
            m = k % 4
            if m == 0:
                g = gen.RawGen(rng, rules=(1, 4), depth=3, rec=0.8, empty=0.25).grammar()
            elif m == 1:
                g = gen.Gen(rng, gen.Opts(values=False, unit_rules=1.0, act=0, span=0, range=0, rec=0.8, rules=(1, 4), rep=5.0, streams=[('fuel', 1)])).grammar()
            else:
                g = gen.Gen(rng, gen.Opts(values=False, unit_rules=1.0, act=0, span=0, range=0, rec=0.8, rules=(1, 4), rep=5.0, streams=[('fuel', 1)])).grammar()
                for _ in range(rng.choice([1, 1, 2])): g = gen.mutate_gram(g, rng)
            if g.size() > 45: continue
            # ill-formed grammars (by the reference) are only kept from time to time: the macro rejects them
            if not peg.WF(g).ok and rng.random() < 0.6: continue
            break
        g = Gram([(n, '(^)', e) for n, t, e in g.rules], {}, 'fuel')
        inp = gen.Inputs(g, rng)
        cases = []
        for n in g.names():
            for s in inp.sample(n, 14, maxlen=10):
                cases.append([n, rng.choice('pr'), 0, 0, s])
        return {'g': g.to_json(), 'cases': cases}
    def compile_message(self, item, j, errs):
        return None
    def case_list(self, item, preps):
        p = preps[0]
        idx = {n: i for i, n in enumerate(p.names)}
        # the language being exponential in general, inputs on which the reference itself is too long are skipped
        ok = peg.WF(p.g).ok
        out = []
        for rule, mode, skip, again, s in item['cases']:
            if ok:
                r = p.ref(rule, s, 0, False, 60000)
                out.append((0, 2 * idx[rule] + (mode == 'r'), 20000 + 100 * r['steps'], skip, again, s) if r else None)
            else:
                out.append((0, 2 * idx[rule] + (mode == 'r'), self.FUEL, skip, again, s))
        return out
    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        # a rejected grammar is not in the scope: only the others are run
        return super().evaluate(art, items, workdir, stats, shrinking)
    def screen(self, item, preps, obs):
        for q, o in enumerate(obs):
            if o is None or o.kind in ('OBS', 'SKIPPED', 'HANG'): continue
            c = item['cases'][q]
            item['_case'] = c
            return 'nontermination: %s_%s on %r does not terminate within the bounds (%s)' % ('parse' if c[1] == 'p' else 'recognize', c[0], c[4], o.kind + ' ' + (o.msg or ''))
        return None
    def judge(self, item, preps, obs, stats):
        if stats is None: return None
        g = preps[0].g
        stats.add('accepted')
        loops = any(x[0] in ('star', 'plus') for _, _, e in g.rules for x in walk(e)) or any(n in dyn.rules_called(e) for n, _, e in g.rules)
        for c, o in zip(item['cases'], obs):
            if o is not None and o.kind == 'OBS' and loops and (o.cur > 0 or o.far > 0): stats.nontrivial((g.key(), tuple(c)))
        return None
    def valid_gram(self, g):
        return all(t == '(^)' for _, t, _ in g.rules)
    def shrinks(self, item, msg):
        for x in super().shrinks(item, msg):
            if x['g']['stream'] == 'fuel': yield x

@register
class C11(core.Check):
    id = 'C11'
    technique = 'property-based testing: random accepted grammars type-checked by rustc against the documented signatures'
    rule = 'Random well-formed and well-typed grammars of larger size on 8 kinds of streams; each rule is used from another module at the documented types. Non-trivial: a choice, repetition, predicate, span or action nested in another one.'
    quick = (40, 70)
    thorough = (500, 90)
    min_nontrivial = 1500
    def make_item(self, rng, k, tier):
        o = [gen.Opts(depth=6, maxsize=90, rules=(1, 5), alt=4.0, rep=4.0, rec=0.4),
             gen.Opts(depth=5, maxsize=70, rules=(1, 5), span=3.0, range=3.0, box=0.3, asc=2.0, rec=0.4),
             gen.Opts(depth=6, maxsize=90, rules=(1, 3), alt=6.0, seq=4.0, unit_rules=0.4, pred=4.0, rec=0.4)][k % 3]
        o.streams = [('str', 3), ('strx', 1), ('fuel', 2), ('vec', 1), ('file', 2), ('gen', 1), ('where', 1)]
        o.items = 0.3
        g = gen.big_gram(rng, o) if rng.random() < self.big else None
        return {'g': (g or gen.Gen(rng, o).grammar()).to_json()}
    big = 0.06
    RUST = {'gen': "support::GStream<'a, support::Tag>", 'where': "support::GStream<'a, support::Tag>", 'str': "oak_runtime::StrStream<'a>",
            'strx': "oak_runtime::StrStream<'a>", 'fuel': "support::FuelStream<'a>", 'vec': "support::VecStream<'a>",
            'file': "oak_runtime::file_map_stream::FileMapStream<'a>"}
    def rust_ty(self, t, stream):
        k = t[0]
        if k in 'IU': return '()'
        if k == 'C': return 'char'
        if k == 'O': return 'Option<' + self.rust_ty(t[1], stream) + '>'
        if k == 'L': return 'Vec<' + self.rust_ty(t[1], stream) + '>'
        if k == 'T': return '(' + ', '.join(self.rust_ty(x, stream) for x in t[1:]) + ')'
        if t == peg.SPAN_TY: return 'oak_runtime::Span'
        if t == peg.RANGE_TY: return 'std::ops::Range<' + stream + '>'
        return t[1]
    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        mods = []
        for i, it in enumerate(items):
            g = Gram.from_json(it['g'])
            ty = peg.typing(g)[1]
            st = self.RUST[g.stream]
            o = ['mod m%d { use support::{self, V, W, En, VShow}; use oak::oak; oak! {' % i, peg.macro_body(g), '} }',
                 'mod api%d { use support::{self, V, W, En}; pub fn api() {' % i]
            for n in g.names():
                o.append("let _r: for<'a> fn(oak_runtime::ParseState<%s, ()>) -> oak_runtime::ParseState<%s, ()> = super::m%d::recognize_%s;" % (st, st, i, n))
                o.append("let _p: for<'a> fn(oak_runtime::ParseState<%s, ()>) -> oak_runtime::ParseState<%s, %s> = super::m%d::parse_%s;" % (st, st, self.rust_ty(ty.rule_ty[n], st), i, n))
            o.append('} }')
            mods.append('\n'.join(o))
        b = build.Batch(art, workdir, mods, main=False, metadata=True).compile()
        out = []
        for i, it in enumerate(items):
            g = Gram.from_json(it['g'])
            if stats is not None:
                stats.evaluations += len(g.rules)
                stats.add(g.stream)
                for n, t, e in g.rules:
                    if any(x is not e and x[0] in ('alt', 'star', 'plus', 'opt', 'not', 'and', 'act', 'span', 'range') for x in walk(e)): stats.nontrivial(repr(e))
                stats.sample({'grammar': peg.macro_body(g)}, 1)
            out.append(None if b.errors[i] in (None, 'HANG') else 'compile: ' + dyn.diag_text(b.errors[i]))
        return out
    def shrinks(self, item, msg):
        g = Gram.from_json(item['g'])
        if g.stream != 'str': yield {'g': g.copy(stream='str').to_json()}
        for h in dyn.shrink_gram(g, set(g.names()) if len(g.rules) == 1 else set(), dyn.valid):
            yield {'g': h.to_json()}
    def cost(self, item):
        g = Gram.from_json(item['g'])
        return 20 * g.size() + 10 * len(g.rules) + 3 * sum(len(x[1]) for _, _, e in g.rules for x in walk(e) if x[0] in ('lit', 'cls')) \
            + {'str': 0, 'fuel': 1}.get(g.stream, 2) + 5 * sum(1 for r in g.rules if r[1])
    def describe(self, item):
        return '  oak! {\n    ' + peg.macro_body(Gram.from_json(item['g'])).replace('\n', '\n    ') + '\n  }'
