"""Checks on the verdict of the macro: accepted, rejected with a message, or internal failure."""
import random
import peg, gen, build, dyn, core
from peg import Gram, walk, WF
from core import Check
from dyn import shrink_gram, diag_text
from props import register

def classify(errs):
    """None | list of Diag | str -> ('accepted'|'rejected'|'panic'|'rust'|'crash'|'hang', text)
    rejected: a message of the macro located in the call; rust: only errors of the Rust compiler."""
    if errs is None: return 'accepted', ''
    if isinstance(errs, str):
        return ('hang' if errs == 'HANG' else 'crash'), errs
    own = [d for d in errs if d.code is None and not d.panic() and not d.text.startswith('cannot find') and d.lines and is_macro_message(d)]
    if own: return 'rejected', own[0].text
    if any(d.panic() for d in errs): return 'panic', diag_text([d for d in errs if d.panic()])
    return 'rust', diag_text(errs)

def is_macro_message(d):
    return True

class VerdictCheck(Check):
    """Items: {'g': grammar, 'perm': order of the rules of a second module}."""
    def permuted(self, item):
        g = Gram.from_json(item['g'])
        return g.copy(rules=[g.rules[i] for i in item['perm']])

    def modtext(self, name, g):
        return peg.module(name, g)

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        mods, gs = [], []
        for it in items:
            g = Gram.from_json(it['g'])
            gs.append(g)
            mods.append(self.modtext('m%d' % len(mods), g))
            mods.append(self.modtext('m%d' % len(mods), self.permuted(it)))
        b = build.Batch(art, workdir, mods, metadata=True).compile()
        out = []
        for i, it in enumerate(items):
            v1, v2 = classify(b.errors[2 * i]), classify(b.errors[2 * i + 1])
            if stats is not None: stats.evaluations += 2
            v = self.verdict(it, gs[i], v1, v2, stats)
            if v is None and v1[0] == v2[0] == 'rejected':
                v = self.reasons(gs[i], b.errors[2 * i], stats) or self.reasons(self.permuted(it), b.errors[2 * i + 1], stats)
            out.append(v)
        return out

    def reasons(self, g, diags, stats):
        """Whether the messages of the macro are those of a rejected grammar: None or a violation."""
        return None

    def rule_of(self, g, d):
        """Name of the rule pointed to by a message on module text printed by `peg.module` (None outside of the rules)."""
        line = peg.first_rule_line(g)
        for n, t, e in g.rules:
            h = peg.CANON.rule((n, t, e)).count('\n') + 1
            if any(p and line <= l0 - d.base < line + h for p, l0, c0, l1, c1, fn in d.lines): return n
            line += h
        return None

    def shrinks(self, item, msg):
        g = Gram.from_json(item['g'])
        ident = list(range(len(g.rules)))
        if item['perm'] != ident: yield {'g': item['g'], 'perm': ident}
        keep = set(g.names()) if len(g.rules) == 1 else set()
        for h in shrink_gram(g, keep, self.shrinkable):
            n = len(h.rules)
            if n == len(g.rules): yield {'g': h.to_json(), 'perm': item['perm']}
            else: yield {'g': h.to_json(), 'perm': list(reversed(range(n)))}

    def shrinkable(self, g):
        return True

    def cost(self, item):
        g = Gram.from_json(item['g'])
        return 20 * g.size() + 10 * len(g.rules) + sum(1 for i, p in enumerate(item['perm']) if i != p) \
            + 3 * sum(len(x[1]) for _, _, e in g.rules for x in walk(e) if x[0] in ('lit', 'cls')) + 5 * sum(1 for r in g.rules if r[1])

    def describe(self, item):
        return '  oak! {\n    ' + peg.macro_body(Gram.from_json(item['g'])).replace('\n', '\n    ') + '\n  }\n  rules also declared in the order ' + str(item['perm'])

@register
class C06(VerdictCheck):
    id = 'C06'
    technique = 'property-based testing: verdict of the macro on random (well-formed and ill-formed) grammars compared with a reference analysis, under permutation of the rules'
    rule = 'Random grammars generated without constraint, and well-formed grammars with one random local change; each declared in two orders. Non-trivial: ill-formed, or with a repetition, a predicate, a choice or recursion.'
    quick = (32, 90)
    thorough = (300, 100)
    min_nontrivial = 600
    def make_item(self, rng, k, tier):
        while True:
            if k % 5 == 2:
                # larger sets of mutually recursive rules
                g = gen.RawGen(rng, rules=(4, 7), depth=rng.choice([1, 2, 2]), rec=1.0, empty=rng.choice([0, 0.15, 0.3])).grammar()
                if not WF(g).ok and rng.random() < 0.4: continue
            elif k % 5 < 2:
                g = gen.RawGen(rng, rules=(1, 4), depth=rng.choice([2, 3, 3, 4]), empty=rng.choice([0, 0.15, 0.3])).grammar()
            else:
                g = gen.Gen(rng, gen.Opts(values=False, unit_rules=1.0, act=0, span=0, range=0, rec=0.7, rules=(1, 4), streams=[('str', 1)])).grammar()
                g = g.copy(rules=[(n, '(^)', e) for n, t, e in g.rules])
                if rng.random() < 0.8: g = gen.mutate_gram(g, rng)
            if g.size() <= 45: break
        perm = list(range(len(g.rules)))
        rng.shuffle(perm)
        return {'g': g.to_json(), 'perm': perm}
    def verdict(self, item, g, v1, v2, stats):
        w = WF(g)
        if stats is not None:
            stats.add('well-formed' if w.ok else 'ill-formed')
            for k in {e[0] for e in w.errors}: stats.add(k)
            if not w.ok or any(x[0] in ('star', 'plus', 'not', 'and', 'alt', 'nt') for _, _, e in g.rules for x in walk(e)):
                stats.nontrivial(g.key())
            stats.sample({'grammar': peg.macro_body(g), 'reference': 'well-formed' if w.ok else w.errors[0][0], 'macro': v1[0] + ' ' + v1[1][:100]}, 2)
        if 'hang' in (v1[0], v2[0]): return None
        for v in (v1, v2):
            if w.ok and v[0] != 'accepted':
                return 'rejects: a well-formed grammar is not accepted: %s %s' % v
            if not w.ok and v[0] in ('accepted', 'rust'):
                return 'accepts: an ill-formed grammar is accepted (%s)' % ', '.join(sorted({e[0] for e in w.errors}))
            if v[0] in ('crash',):
                return 'crash: the macro does not give a verdict: %s %s' % v
        if not w.ok and v1[0] != v2[0]:
            return 'order: the verdict depends on the order of the rules: %s / %s' % (v1[0], v2[0])
        return None
    KINDS = [('Left-recursion', 'left_recursion'), ('Infinite loop', 'infinite_repeat'), ('never succeed', 'never_succeeds'),
             ('always succeed without', 'always_succeeds_without_consuming'), ('Unreachable branch', 'unreachable_branch')]
    def reasons(self, g, diags, stats):
        w = WF(g)
        w.all_branches = True       # also the errors in branches that are not reachable
        have = {('left_recursion', n) for n in w.cyclic()}
        for n in g.names():
            errs = []
            w.attr(g.expr(n), errs)
            have |= {(k, n) for k, _ in errs}
        bad = None
        for d in diags:
            k = next((k for t, k in self.KINDS if t in d.text), None)
            if k is None or d.code is not None: continue
            n = self.rule_of(g, d)
            if (k, n) in have:
                if stats is not None: stats.add('reason checked')
                return None
            if stats is not None: stats.add('reason not found')
            bad = (d.text.split('\n')[0], n)
        # one of the messages at least tells a reason that applies: the others may follow from it
        return bad and 'reason: %r in rule %s, which has no such error (%s)' % (bad + (', '.join(sorted('%s of %s' % x for x in have)),))
    def shrinkable(self, g):
        return all(t == '(^)' for _, t, _ in g.rules)

@register
class C22(VerdictCheck):
    id = 'C22'
    technique = 'property-based testing: verdict of the type inference on random (well-typed and ill-typed) grammars compared with a reference typing, under permutation of the rules'
    rule = 'Random well-formed grammars with values, semantic actions and ascriptions generated without typing constraint, and well-typed grammars with one random change. Non-trivial: ill-typed, or with a choice, an ascription or an action on values.'
    quick = (32, 80)
    thorough = (300, 100)
    min_nontrivial = 600
    def make_item(self, rng, k, tier):
        for _ in range(400):
            if k % 5 in (2, 3):
                g = gen.near_gram(rng, gen.Opts(values=True, unit_rules=0.1, rec=0.3, rules=(1, 2), depth=2, maxsize=20, streams=[('str', 1)]))
                if g is None: continue
            elif k % 5 < 2:
                g = gen.RawGen(rng, rules=(1, 3), depth=rng.choice([2, 3, 3, 4]), values=True, acts=True, rec=0.5, empty=0.03)
                g.paths = rng.choice([0, 0.3])
                g = g.grammar()
                if rng.random() < 0.3:
                    n, t, e = g.rules[-1]
                    g.rules[-1] = (n, rng.choice(['()', '(^)', 'V']), e)
            else:
                g = gen.Gen(rng, gen.Opts(values=True, unit_rules=0.1, rec=0.3, rules=(1, 4), streams=[('str', 1)])).grammar()
                if rng.random() < 0.7: g = gen.mutate_gram(g, rng, (('lit', 'a'), ('any',), ('cls', 'ab'), ('opt', ('any',)), ('star', ('any',))))
            if g.size() > 45 or not WF(g).ok: continue
            st = peg.typing(g)[0]
            if st == 'unsupported': continue
            if st == 'ok' and rng.random() < 0.4: continue
            break
        else:
            return None
        perm = list(range(len(g.rules)))
        rng.shuffle(perm)
        return {'g': g.to_json(), 'perm': perm}
    def verdict(self, item, g, v1, v2, stats):
        st, why = peg.typing(g)
        if st == 'unsupported': return None
        if stats is not None:
            stats.add(st)
            if st == 'ill': stats.add('ill: ' + why.split(' of ')[0])
            if st == 'ill' or any(x[0] in ('alt', 'asc', 'act') for _, _, e in g.rules for x in walk(e)): stats.nontrivial(g.key())
            stats.sample({'grammar': peg.macro_body(g), 'reference': st if st == 'ok' else why, 'macro': v1[0] + ' ' + v1[1][:100]}, 2)
        if 'hang' in (v1[0], v2[0]): return None
        for v in (v1, v2):
            if st == 'ok' and v[0] not in ('accepted', 'rust'):
                return 'rejects: a well-typed grammar is not accepted: %s %s' % v
            if st == 'ill' and v[0] in ('accepted', 'rust'):
                return 'accepts: an ill-typed grammar is accepted (%s)' % why
            if v[0] in ('crash', 'panic'):
                return 'crash: no verdict: %s %s' % v
        return None
    def shrinkable(self, g):
        return WF(g).ok and peg.typing(g)[0] != 'unsupported'
