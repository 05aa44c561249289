"""Metamorphic checks: names (C15), streams (C20), algebraic laws (C21)."""
import random, re
import peg, gen, build, dyn, core
from peg import Gram, walk, I, U, unitlike, WF
from dyn import DynCheck, Prepared
from props import register, GENRULE, outcome

class PairCheck(DynCheck):
    """Items hold a grammar and a list of `others`: grammars that must behave the same; `map`: rule -> rule of the other grammar."""
    modes = 'pr'
    def names_of(self, item, j):
        return item['maps'][j - 1] if j else None

    def grams(self, item):
        return [Gram.from_json(item['g'])] + [Gram.from_json(x) for x in item['others']]

    def case_list(self, item, preps):
        out = []
        p = preps[0]
        idx = [{n: i for i, n in enumerate(q.names)} for q in preps]
        for rule, mode, skip, again, s in item['cases']:
            ref = p.ref(rule, s, skip, mode == 'p')
            fuel = 4 * fuel_of(ref) * (2 if again else 1) if ref else 0
            for j in range(len(preps)):
                nm = item['maps'][j - 1][rule] if j else rule
                out.append((j, 2 * idx[j][nm] + (mode == 'r'), fuel, skip, again, s) if ref else None)
        return out

    def show(self, o, j, item):
        return (o.ok, o.bad, o.cur if o.ok else None, o.far, tuple(o.exp), o.data, tuple(o.trace), o.res, o.debug)

    def describe_other(self, item, j):
        return peg.macro_body(Gram.from_json(item['others'][j - 1]))

    def compile_message(self, item, j, errs):
        if j == 0: return 'compile: ' + dyn.diag_text(errs)
        return 'compile: the transformed grammar does not compile: ' + dyn.diag_text(errs)

    def judge(self, item, preps, obs, stats):
        n = len(preps)
        p = preps[0]
        for q, c in enumerate(item['cases']):
            rule, mode, skip, again, s = c
            ref = p.ref(rule, s, skip, mode == 'p')
            if ref is None: continue
            o = obs[n * q]
            if o is None or o.kind != 'OBS': continue
            if stats is not None and self.interesting(c, ref, p): stats.nontrivial((p.g.key(), tuple(c)))
            m = outcome(p, c, o, ref)
            if m:
                item['_case'] = c
                return '%s: %s_%s on %r: %s' % (m[0], 'parse' if mode == 'p' else 'recognize', rule, s, m[1])
            a = self.show(o, 0, item)
            for j in range(1, n):
                x = obs[n * q + j]
                if x is None or x.kind != 'OBS': continue
                b = self.show(x, j, item)
                if a != b:
                    item['_case'] = c
                    return 'difference: %s_%s on %r%s: %s; but %s with\n%s' % ('parse' if mode == 'p' else 'recognize', rule, s, ' from character %d' % skip if skip else '', o.brief(), x.brief(), self.describe_other(item, j))
        return None

    def sample(self, stats, item, preps, obs):
        stats.sample({'grammar': peg.macro_body(preps[0].g), 'transformed': self.describe_other(item, 1) if len(preps) > 1 else None})

def fuel_of(ref):
    return dyn.fuel_for(ref)

# ------------------------------------------------------------------ C15
NAMES = ['state', 'stream', 'result', 'input', 'data', 'success', 'failure', 'cont', 'mark1', 'mark2', 'counter1', 'success_continuation_1', 'branch_failed_1', 'stateful',
         'stateless', 'x', 'b0', 'c0', 'd1', 'parse', 'recognize', 'self_', 'value', 'S', 'T', 'Rule', 'Stream', 'ParseState', 'Some', 'None', 'Vec', 'Option', 'Span', 'r2d2', 'é', '名前',
         'parse_x', 'recognize_x', '_a', 'a__b', 'matchs', 'oak', 'main', 'error', 'string', 'str', 'u8', 'box_', 'union', 'auto', 'default', 'dyn_', 'macro_rules_', 'raw', 'type', 'fn', 'match', 'loop', 'impl', 'async', 'true']
RESERVED_LOCAL = re.compile(r'^(state|stateful|stateless|x|mark\d+|counter\d+|success_continuation_\d+|branch_failed_\d+|[a-z]+\d+)$')

def rename(g, m, fm):
    """Consistent renaming of rules (m) and functions (fm)."""
    def f(e):
        if e[0] == 'nt': return ('nt', m[e[1]])
        if e[0] == 'act' and e[2] in fm: return ('act', e[1], fm[e[2]]) + e[3:]
        return e
    return g.copy(rules=[(m[n], t, peg.map_expr(f, e)) for n, t, e in g.rules], fns={fm.get(k, k): v for k, v in g.fns.items()})

# Variants which hide a name of the prelude of Rust (or a usual one) when they are imported by `use self::Ast::*`, as in the book.
ITEMS = ['None', 'Some(u8)', 'Vec(u8)', 'Option', 'Ok', 'Err', 'String', 'Iterator', 'Clone', 'Result', 'Expr(u8, u8)', 'Range_', 'Str', 'Char(u8)', 'ParseResult_', 'Default', 'Drop', 'Fn']

@register
class C15(PairCheck):
    id = 'C15'
    technique = 'property-based testing: random grammars against the same grammar with rules and functions renamed, declarations permuted, unused rules added, a rule moved to another module and items with the names of the standard library; duplicates and unknown rules must be errors'
    rule = 'Random well-typed grammars, each compiled with two random combinations of transformations of names; observations must be identical. Non-trivial: the reference takes at least 4 steps and reads input, or a grammar with a duplicated or unknown name.'
    inputs = 10
    quick = (44, 18)
    thorough = (400, 26)
    min_nontrivial = 1000
    def opts(self, rng, k):
        return gen.Opts(rules=(2, 5), call=5.0, maxsize=50, rec=0.4, enums=0, unit_rules=0.2)

    def make_item(self, rng, k, tier):
        if k % 8 == 7: return self.faulty_item(rng, k)
        g = self.make_gram(rng, k)
        it = {'g': g.to_json(), 'cases': self.make_cases(g, rng), 'others': [], 'maps': []}
        for _ in range(2):
            h, m = self.transform(g, rng)
            it['others'].append(h.to_json())
            it['maps'].append(m)
        return it

    def transform(self, g, rng):
        h = g
        m = {n: n for n in g.names()}
        what = set(w for w in ('rename', 'permute', 'unused', 'move') if rng.random() < 0.6) or {'rename'}
        if 'move' in what:
            x = self.move(g, rng)
            if x is not None: h = x
        if 'rename' in what:
            pool = [n for n in NAMES if n not in ('parse_x',)]
            new = rng.sample(pool, len(h.rules))
            if rng.random() < 0.4:
                new = list(h.names())
                rng.shuffle(new)
            mm = dict(zip(h.names(), new))
            taken = set(mm.values()) | {'main', 'oak', 'self_'}
            pool = [n for n in NAMES + ['f_é', 'f_a', 'act_0', 'act_1', 'go', 'c1', 'd0', 'e0', 'parse_z9', 'a0', 'closure'] if n[0].islower() and n not in ('oak', 'str', 'u8', 'main', 'parse_x', 'recognize_x')]
            fnew = rng.sample(sorted(set(pool)), min(len(pool), len(h.fns)))
            fm = dict(zip(sorted(h.fns), fnew)) if len(fnew) == len(h.fns) else {}
            h2 = rename(h, mm, fm)
            h2.extra = dict(h.extra)
            if 'moved' in h.extra: h2.extra['moved'] = h.extra['moved']
            m = {a: mm[b] for a, b in m.items() if b in mm}
            h2.extra['fns'] = {b: a for a, b in fm.items()}
            h = h2
        if 'unused' in what:
            for _ in range(rng.randint(1, 2)):
                nm = 'unused_%d' % rng.randint(0, 10 ** 6)
                if nm not in h.names():
                    b = rng.choice([('lit', 'a'), ('seq', ('any',), ('star', ('cls', 'ab'))), ('opt', ('lit', 'zz')), ('nt', rng.choice(h.names()))])
                    h = h.copy(rules=h.rules + [(nm, None, b)])
        if 'permute' in what:
            rs = list(h.rules)
            rng.shuffle(rs)
            h = h.copy(rules=rs)
        if rng.random() < 0.3: h.extra['raw'] = rng.randint(1, 10 ** 9)
        h.extra['order'] = rng.randint(1, 10 ** 9) if 'permute' in what else 0
        if rng.random() < 0.35: h.extra['items'] = sorted(rng.sample(range(len(ITEMS)), rng.randint(2, len(ITEMS))))
        return h, m

    def move(self, g, rng):
        """Moves the rules on which one rule depends into another module; calls to it become calls by path."""
        k, ty = peg.typing(g)
        w = WF(g)
        cands = [n for n in g.names()]
        rng.shuffle(cands)
        for n in cands:
            clo, todo = {n}, [n]
            while todo:
                for x in dyn.rules_called(g.expr(todo.pop())):
                    if x not in clo:
                        clo.add(x)
                        todo.append(x)
            callers = [a for a, _, e in g.rules if n in dyn.rules_called(e) and a not in clo]
            if not callers: continue
            t = ty.rule_ty[n]
            a = w.table[n]
            if not (a[0] and a[1] and a[2] and not a[3]): continue
            if t[0] == 'T' or 'U' in repr(t) and t != U or t[0] == 'R' and t in (peg.SPAN_TY, peg.RANGE_TY): continue
            if 'Span' in repr(t) or 'Range' in repr(t): continue
            inner = [r for r in g.rules if r[0] in clo]
            tn = peg.show_ty(t) if not unitlike(t) else '(^)' if t == I else '()'
            used = rng.random() < 0.3
            path = 'ext_' + n if used else rng.choice(['inner::', 'self::inner::', 'self::alias::']) + n
            def sub(e):
                return ('asc', ('ext', path, n), tn) if e[0] == 'nt' and e[1] == n else e
            rules = [(a, u, peg.map_expr(sub, e) if a not in clo else e) for a, u, e in g.rules]
            h = g.copy(rules=rules)
            h.extra = dict(g.extra, moved={'rules': [list(r) for r in inner], 'path': path, 'use': n if used else ''})
            if not WF(h).ok: continue
            ok = True
            if peg.typing(h, True)[0] != 'ok': continue
            # the arities seen by the actions must not change
            k2, ty2 = peg.typing(h)
            for (a, _, e1), (_, _, e2) in zip(g.rules, h.rules):
                try:
                    if [peg.card(ty.surface(x[1])) for x in walk(e1) if x[0] == 'act'] != [peg.card(ty2.surface(x[1])) for x in walk(e2) if x[0] == 'act']: ok = False
                    if self.shape(ty.surface(e1)) != self.shape(ty2.surface(e2)): ok = False
                except peg.IllTyped:
                    ok = False
            if ok: return h
        return None

    def shape(self, t):
        return peg.show_ty(t)

    def module_text(self, name, g, item, j):
        pre = ''
        order = None
        if j:
            x = item['others'][j - 1].get('extra') or {}
            fns = x.get('fns', {})
            if x.get('order'):
                def order(decls):
                    d = list(decls)
                    random.Random(x['order']).shuffle(d)
                    return d
            body = peg.macro_body(g, peg.RawNames(random.Random(x['raw'])) if x.get('raw') else peg.CANON, order)
            if x.get('raw'):
                r2 = random.Random(x['raw'])
                body = re.sub(r'(?m)^fn (?!r#)(?=\w)', lambda m: 'fn r#' if r2.random() < 0.4 else m.group(0), body)
            # the actions record the name of the original function
            body = re.sub(r'call\("([^"]*)"', lambda m: 'call("%s"' % fns.get(m.group(1), m.group(1)), body)
            if 'moved' in x:
                gi = Gram([tuple(r) for r in x['moved']['rules']], {f: v for f, v in Gram.from_json(item['g']).fns.items()
                           if any(y[0] == 'act' and y[2] == f for r in x['moved']['rules'] for y in walk(peg.tup(r[2])))}, g.stream)
                inner = 'mod inner { use support::{self, V, W, En, VShow}; use support::Stream as _; use oak::oak; oak! {\n%s\n} }' % peg.macro_body(gi)
                u = x['moved'].get('use')
                if u:
                    use = 'use self::inner::{recognize_%s as recognize_ext_%s, parse_%s as parse_ext_%s};' % (u, u, u, u)
                    if x['moved']['path'] and (x.get('order') or 0) % 2: inner += use
                    else: body = body + '\n' + use
                if 'alias::' in x['moved']['path']: inner += 'use self::inner as alias; '
                text = peg.module(name, g, body)
                head = 'mod %s { ' % name
                assert text.startswith(head)
                return head + inner + '\n' + self.items_text(x, text) + text[len(head):]
            text = peg.module(name, g, body)
            head = 'mod %s { ' % name
            assert text.startswith(head)
            return head + self.items_text(x, text) + text[len(head):]
        return peg.module(name, g)

    def items_text(self, x, text):
        """The variants of an enumeration imported in the module, the names of which are also names of the standard library."""
        names = [ITEMS[i] for i in x.get('items') or []]
        names = [n for n in names if not re.search(r'\b%s\b' % re.match(r'\w+', n).group(0), text)]
        if not names: return ''
        return '#[allow(dead_code)] pub enum Captured { %s } #[allow(unused_imports)] use self::Captured::*; ' % ', '.join(names)

    # -- faulty names
    def faulty_item(self, rng, k):
        bad = []
        for _ in range(4):
            g = self.make_gram(rng, k)
            kind = rng.choice(['duprule', 'duprule', 'dupfn', 'unknown', 'unknown'])
            if kind == 'dupfn' and not g.fns: kind = 'duprule'
            names = set()
            if kind == 'duprule':
                n, t, e = rng.choice(g.rules)
                e2 = e if rng.random() < 0.3 else rng.choice([('lit', 'a'), ('any',), ('lit', 'zz')])
                rules = list(g.rules)
                rules.insert(rng.randint(0, len(rules)), (n, t, e2))
                g = g.copy(rules=rules)
                text = peg.macro_body(g, peg.RawNames(random.Random(rng.randint(1, 10 ** 9))) if rng.random() < 0.4 else peg.CANON)
            elif kind == 'dupfn':
                f = rng.choice(sorted(g.fns))
                decls = peg.macro_body(g).split('\n')
                decls.insert(rng.randint(0, len(decls)), 'fn %s%s() -> V { V(String::new()) }' % ('r#' if rng.random() < 0.3 and f not in peg.KEYWORDS else '', f) if rng.random() < 0.5 else peg.fn_src(f, *g.fns[f]))
                text = '\n'.join(decls)
            else:
                nodes = [(i, x) for i, (_, _, e) in enumerate(g.rules) for x in walk(e) if x[0] in ('lit', 'any', 'cls', 'nt')]
                i, node = rng.choice(nodes)
                done = [False]
                def f(x):
                    if x is node and not done[0]:
                        done[0] = True
                        return x
                    return x
                marker = 'nowhere_%d' % rng.randint(0, 99)
                if rng.random() < 0.4: marker = rng.choice(['super::', 'self::', 'crate::']) + marker
                new = ('nt', marker)
                def go(x):
                    if x is node and not done[0]:
                        done[0] = True
                        return new
                    return peg.with_children(x, [go(c) for c in peg.children(x)])
                rules = list(g.rules)
                n, t, e = rules[i]
                e = go(e)
                # an invisible rule, so that the call is a legal expression for the type inference
                if rng.random() < 0.7: t, e = ('(^)', e)
                rules[i] = (n, t, e)
                text = peg.macro_body(g.copy(rules=rules))
            bad.append([kind, text, STREAM_MOD])
        return {'g': Gram([('r', None, ('lit', 'a'))]).to_json(), 'cases': [], 'others': [], 'maps': [], 'bad': bad}

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        import verdict
        good = [i for i, it in enumerate(items) if not it.get('bad')]
        out = [None] * len(items)
        if good:
            for i, v in zip(good, super().evaluate(art, [items[i] for i in good], workdir, stats, shrinking)): out[i] = v
        mods, owner = [], []
        for i, it in enumerate(items):
            for kind, text, _ in it.get('bad') or []:
                mods.append('mod m%d { use support::{self, V, W, En, VShow}; use support::Stream as _; use oak::oak; oak! {\n%s\n} }' % (len(mods), text))
                owner.append((i, kind, text))
        if mods:
            b = build.Batch(art, workdir, mods, metadata=True, main=False).compile()
            for (i, kind, text), e in zip(owner, b.errors):
                v = verdict.classify(e)
                if stats is not None:
                    stats.evaluations += 1
                    stats.add(kind)
                    stats.nontrivial((kind, text))
                if out[i] is not None or v[0] == 'hang': continue
                want = ('rejected',) if kind != 'unknown' else ('rejected', 'rust')
                if v[0] not in want:
                    out[i] = '%s: %s is not reported as an error: %s %s\n%s' % (kind, {'duprule': 'a rule declared twice', 'dupfn': 'a function declared twice', 'unknown': 'a call of a rule that exists nowhere'}[kind], v[0], v[1], text)
                elif kind != 'unknown' and 'duplicate' not in ' '.join(d.text for d in e):
                    out[i] = '%s: the duplicate is not mentioned by the messages (%s)\n%s' % (kind, v[1], text)
        return out

    def shrinks(self, item, msg):
        if item.get('bad'):
            if len(item['bad']) > 1:
                for x in item['bad']: yield dict(item, bad=[x])
            else:
                kind, text, s = item['bad'][0]
                lines = text.split('\n')
                for i in range(len(lines)):
                    t = '\n'.join(lines[:i] + lines[i + 1:])
                    if self.still(kind, t): yield dict(item, bad=[[kind, t, s]])
            return
        base = {k: v for k, v in item.items() if k[0] != '_'}
        if len(item['others']) > 1:
            for j in range(len(item['others'])): yield dict(base, others=[item['others'][j]], maps=[item['maps'][j]])
        c = item.pop('_case', None)
        if c is not None and len(item['cases']) > 1:
            yield dict(base, cases=[c])
        elif c is not None:
            for t in dyn.shrink_text(c[4]): yield dict(base, cases=[[c[0], c[1], min(c[2], len(t)), c[3], t]])
        elif item['cases'] and msg.startswith('compile'): yield dict(base, cases=[])

    def still(self, kind, t):
        if kind == 'unknown': return 'nowhere_' in t
        heads = [re.split(r'[ :(<]', l[3:] if l.startswith('fn ') else l)[0].replace('r#', '') for l in t.split('\n') if l.startswith('fn ') == (kind == 'dupfn')]
        return len(set(heads)) < len(heads)

    def cost(self, item):
        if item.get('bad'): return sum(len(t) + 50 for _, t, _ in item['bad'])
        return super().cost(item) + sum(100 + 10 * Gram.from_json(x).size() for x in item['others'])

    def describe(self, item):
        if item.get('bad'): return '\n'.join('  [%s] oak! {\n    %s\n  }' % (k, t.replace('\n', '\n    ')) for k, t, _ in item['bad'])
        s = super().describe(item)
        for j in range(len(item['others'])):
            s += '\n  transformed into\n' + self.module_text('m', Gram.from_json(item['others'][j]), item, j + 1).split('\npub fn run')[0]
        return s

STREAM_MOD = ''

# ------------------------------------------------------------------ C20
SHIFT = re.compile(r'sp(\d+)-(\d+)')

@register
class C20(PairCheck):
    id = 'C20'
    technique = 'property-based testing: differential testing of random grammars compiled for several kinds of streams'
    rule = 'Random well-typed grammars compiled for the default stream and for 2 to 4 other streams (user-defined, generic, with a where clause, file map), run from the start, from the middle and after another run; all observations must be identical (file map spans being shifted). Non-trivial: the reference takes at least 4 steps and reads input.'
    starts = True
    inputs = 12
    quick = (32, 16)
    thorough = (400, 24)
    min_nontrivial = 1000
    def opts(self, rng, k):
        # the arguments of actions are texts: with spans they differ between strings and file maps
        return gen.Opts(streams=[('str', 1)], odd=0.5, span=3.0 if k % 3 == 1 else 0.0, act=0 if k % 6 == 1 else 3.0, range=2.0, depth=5 if k % 2 == 0 else 4)
    def make_item(self, rng, k, tier):
        g = self.make_gram(rng, k)
        spans = any(x[0] == 'span' for _, _, e in g.rules for x in walk(e))
        kinds = (['strx', 'file'] if not g.fns else ['strx']) if spans else rng.sample(['strx', 'fuel', 'vec', 'file', 'gen', 'where'], 4)
        cases = self.make_cases(g, rng)
        for c in cases:
            if rng.random() < 0.3 and c[2] == 0:
                c[2] = rng.randint(0, min(4, len(c[4])))
                c[3] = int(rng.random() < 0.5)
        idm = {n: n for n in g.names()}
        return {'g': g.copy(stream='str').to_json(), 'cases': cases, 'others': [g.copy(stream=s).to_json() for s in kinds], 'maps': [idm] * len(kinds)}
    def show(self, o, j, item):
        t = super().show(o, j, item)
        if j and item['others'][j - 1]['stream'] == 'file':
            f = lambda m: 'sp%d-%d' % (int(m.group(1)) - dyn.FILE_START, int(m.group(2)) - dyn.FILE_START)
            return t[:5] + (None if t[5] is None else SHIFT.sub(f, t[5]),) + t[6:8] + (SHIFT.sub(f, t[8]),)
        return t
    def describe_other(self, item, j):
        return 'the stream `%s`' % item['others'][j - 1]['stream']
    def shrinks(self, item, msg):
        base = {k: v for k, v in item.items() if k[0] != '_'}
        kinds = [x['stream'] for x in item['others']]
        if len(kinds) > 1:
            for j in range(len(kinds)): yield dict(base, others=[item['others'][j]], maps=[item['maps'][j]])
        for x in super().shrinks(item, msg):
            g = Gram.from_json(x['g'])
            if g.stream != 'str': continue
            idm = {n: n for n in g.names()}
            yield dict(x, others=[g.copy(stream=s).to_json() for s in kinds], maps=[idm] * len(kinds))

# ------------------------------------------------------------------ C21
def attr_ok(e, wf):
    errs = []
    wf.attr(e, errs)
    return not errs

def rewrites(e, g, rng, wf):
    """PEG-equivalent expressions of e (for recognizers), with the name of the law. New rules are returned too."""
    k = e[0]
    out = []
    def add(name, f, rules=()):
        out.append((name, f, list(rules)))
    if k == 'seq' and len(e) > 3:
        i = rng.randint(1, len(e) - 2)
        j = rng.randint(i + 1, len(e) - 1)
        add('associativity of sequence', ('seq',) + e[1:i] + (('seq',) + e[i:j + 1],) + e[j + 1:] if (i, j) != (1, len(e) - 1) else ('seq', e[1], ('seq',) + e[2:]))
    if k == 'seq':
        for i, c in enumerate(e[1:], 1):
            if i > 1 and c == ('star', e[i - 1]): add('e e* is e+', ('seq',) + e[1:i - 1] + (('plus', e[i - 1]),) + e[i + 1:] if len(e) > 3 else ('plus', e[i - 1]))
            if c[0] == 'plus': add('e+ is e e* in a sequence', ('seq',) + e[1:i] + (c[1], ('star', c[1])) + e[i + 1:])
            if c[0] == 'seq': add('associativity of sequence', ('seq',) + e[1:i] + c[1:] + e[i + 1:])
            if c[0] == 'alt' and i > 1 and i == len(e) - 1:
                add('distribution of a prefix', ('alt',) + tuple(('seq',) + e[1:i] + (b,) for b in c[1:]))
    if k == 'alt' and len(e) > 3:
        add('associativity of choice', ('alt', e[1], ('alt',) + e[2:]))
        add('associativity of choice', ('alt',) + (('alt',) + e[1:-1],) + e[-1:])
    if k == 'alt':
        for i, c in enumerate(e[1:], 1):
            if c[0] == 'alt': add('associativity of choice', ('alt',) + e[1:i] + c[1:] + e[i + 1:])
        if all(c[0] == 'seq' for c in e[1:]) and all(c[1] == e[1][1] for c in e[1:]):
            add('factoring of a prefix', ('seq', e[1][1], ('alt',) + tuple(('seq',) + c[2:] if len(c) > 3 else c[2] for c in e[1:])))
        if e[-1] == ('lit', '') and len(e) == 3: add('e / "" is e?', ('opt', e[1]))
        add('repeated branch', ('alt',) + e[1:] + (e[-1],) if WF_can_fail(e[-1], wf) else e)
    if k == 'plus':
        add('e+ is e e*', ('seq', e[1], ('star', e[1])))
    if k == 'star':
        add('e* is (e+)?', ('opt', ('plus', e[1])))
        add('e* is e+ / ""', ('alt', ('plus', e[1]), ('lit', '')))
        n = 'rep_%d' % rng.randint(0, 999)
        add('e* is a recursive rule', ('nt', n), [(n, '(^)', ('alt', ('seq', e[1], ('nt', n)), ('lit', '')))])
    if k == 'opt':
        add('e? is e / ""', ('alt', e[1], ('lit', '')))
    if k == 'and':
        add('&e is !!e', ('not', ('not', e[1])))
        if e[1][0] == 'and': add('&&e is &e', e[1])
    if k == 'not':
        if e[1][0] == 'not': add('!!e is &e', ('and', e[1][1]))
        if e[1][0] == 'and': add('!&e is !e', ('not', e[1][1]))
        add('!e is !&e', ('not', ('and', e[1])))
        if e[1][0] == 'alt': add('!(a / b) is !a !b', ('seq',) + tuple(('not', c) for c in e[1][1:]))
    n = 'part_%d' % rng.randint(0, 999)
    if k not in ('nt',): add('call of a rule with that body', ('nt', n), [(n, '(^)', e)])
    if k == 'nt' and n not in dyn.rules_called(g.expr(e[1])) and e[1] not in dyn.rules_called(g.expr(e[1])): add('inlining', g.expr(e[1]))
    add('e is e ""', ('seq', e, ('lit', '')))
    add('e is "" e', ('seq', ('lit', ''), e))
    add('e is e:(^)', ('asc', e, rng.choice(['(^)', '()'])))
    if k == 'lit' and len(e[1]) == 1 and e[1] != '-' : pass
    return [(nm, f, r) for nm, f, r in out if f != e and f not in (('seq',), ('alt',))]

COMMON = ('call of a rule with that body', 'e is e ""', 'e is "" e', 'e is e:(^)')

def WF_can_fail(e, wf):
    return wf.attr(e, None)[0]

@register
class C21(PairCheck):
    id = 'C21'
    technique = 'property-based testing: metamorphic testing of random grammars under random sequences of PEG-equivalent rewritings'
    rule = 'Random well-formed recognizer grammars, each compared with two grammars obtained by 1 to 4 random rewritings by the laws of the statement (at random places); outcomes, positions, farthest errors and expected items must be identical. Non-trivial: the reference takes at least 4 steps and reads input.'
    typed = False
    modes = 'r'
    starts = True
    inputs = 18
    quick = (56, 24)
    thorough = (400, 32)
    min_nontrivial = 1500
    def make_gram(self, rng, k):
        o = gen.Opts(values=False, unit_rules=1.0, act=0, span=0, range=0, pred=4.0, rec=0.5, depth=4, maxsize=40, alt=5.0 if k % 2 else 3.0,
                     streams=[('str', 2), ('fuel', 2), ('vec', 1)])
        g = gen.Gen(rng, o).grammar()
        g = g.copy(rules=[(n, '(^)', e) for n, t, e in g.rules])
        # long sequences and choices of small literals, repeated or prefixes of each other
        if rng.random() < 0.4:
            def lits():
                ls = [('lit', ''.join(rng.choice('ab') for _ in range(rng.choice((1, 1, 1, 2))))) for _ in range(rng.randint(2, 5))]
                for _ in range(rng.randint(0, 2)):
                    i = rng.randrange(len(ls))
                    ls.insert(i, rng.choice((ls[i], ('lit', ls[i][1] + rng.choice('ab')))))
                return tuple(ls)
            def f(e):
                if e[0] in ('seq', 'alt') and rng.random() < 0.4:
                    i = rng.randint(1, len(e))
                    return e[:i] + lits() + e[i:]
                if e[0] == 'lit' and rng.random() < 0.1: return (rng.choice(('seq', 'alt')),) + lits()
                return e
            h = g.copy(rules=[(n, t, peg.map_expr(f, e)) for n, t, e in g.rules])
            if WF(h).ok and h.size() < 60: g = h
        # common prefixes and suffixes, so that the distribution laws apply
        if rng.random() < 0.5:
            def f(e):
                if e[0] == 'alt' and rng.random() < 0.4:
                    p = ('lit', rng.choice('abc'))
                    return ('alt',) + tuple(('seq', p) + (c[1:] if c[0] == 'seq' else (c,)) for c in e[1:])
                return e
            h = g.copy(rules=[(n, t, peg.map_expr(f, e)) for n, t, e in g.rules])
            if WF(h).ok and h.size() < 60: g = h
        return g
    def rewrite(self, g, rng):
        wf = WF(g)
        pool = {}
        for i, (n, t, e) in enumerate(g.rules):
            for w, x in enumerate(walk(e)):
                for law, new, extra in rewrites(x, g, rng, wf):
                    if not any(y[0] in g.names() for y in extra): pool.setdefault(law, []).append((i, w, new, extra))
        for _ in range(30):
            if not pool: break
            law = gen.pick(rng, [(0.3 if l in COMMON else 1.0, l) for l in sorted(pool)])
            i, w, new, extra = rng.choice(pool[law])
            n, t, e = g.rules[i]
            ctr = [0]
            def go(x):
                me = ctr[0]
                ctr[0] += 1
                if me == w:
                    ctr[0] += peg.size(x) - 1
                    return new
                return peg.with_children(x, [go(c) for c in peg.children(x)])
            rules = list(g.rules)
            rules[i] = (n, t, go(e))
            h = g.copy(rules=rules + extra)
            if h.size() > 110: continue
            if any(any(x[0] in ('seq', 'alt') and len(x) < 3 for x in walk(b)) for _, _, b in h.rules): continue
            if not WF(h).ok: continue
            return h, law
        return None, None
    def make_item(self, rng, k, tier):
        g = self.make_gram(rng, k)
        it = {'g': g.to_json(), 'cases': self.make_cases(g, rng), 'others': [], 'maps': [], 'laws': []}
        for _ in range(2):
            h, laws = g, []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                h2, law = self.rewrite(h, rng)
                if h2 is None: break
                h = h2
                laws.append(law)
            if not laws: continue
            it['others'].append(h.to_json())
            it['maps'].append({n: n for n in g.names()})
            it['laws'].append(laws)
        return it
    def show(self, o, j, item):
        return (o.ok, o.cur if o.ok else None, o.far, tuple(o.exp), o.res, o.debug)
    def judge(self, item, preps, obs, stats):
        if stats is not None:
            for ls in item['laws']:
                for l in ls: stats.add(l)
        # the laws hold in the reference: anything else is a defect of this check
        p = preps[0]
        for c in item['cases']:
            a = p.ref(c[0], c[4], c[2], False)
            if a is None: continue
            for q in preps[1:]:
                b = q.ref(c[0], c[4], c[2], False, 200000)
                if b is not None and any(a[f] != b[f] for f in ('ok', 'pos', 'far', 'exp')):
                    raise AssertionError('not a law: %s\n%s\n%s\n%r' % (item['laws'], peg.macro_body(p.g), peg.macro_body(q.g), c))
        return super().judge(item, preps, obs, stats)
    def sample(self, stats, item, preps, obs):
        if item['others']: stats.sample({'grammar': peg.macro_body(preps[0].g), 'transformed': self.describe_other(item, 1), 'laws': item['laws'][0]})
    def shrinks(self, item, msg):
        base = {k: v for k, v in item.items() if k[0] != '_'}
        if len(item['others']) > 1:
            for j in range(len(item['others'])): yield dict(base, others=[item['others'][j]], maps=[item['maps'][j]], laws=[item['laws'][j]])
        c = item.pop('_case', None)
        if c is not None and len(item['cases']) > 1: yield dict(base, cases=[c])
        elif len(item['cases']) == 1:
            c = item['cases'][0]
            for t in dyn.shrink_text(c[4]): yield dict(base, cases=[[c[0], c[1], min(c[2], len(t)), c[3], t]])
            if c[3]: yield dict(base, cases=[c[:3] + [0] + c[4:]])
        elif msg.startswith('compile') and item['cases']: yield dict(base, cases=[])
        if len(item['others']) == 1:
            # smaller grammars, with one rewriting found again
            g = Gram.from_json(item['g'])
            keep = {c[0] for c in item['cases']}
            for h in dyn.shrink_gram(g, keep, lambda x: dyn.valid(x, False) and all(t == '(^)' for _, t, _ in x.rules)):
                for s in range(2):
                    rng = random.Random(s)
                    for law in set(sum(item['laws'], [])):
                        for _ in range(6):
                            h2, l = self.rewrite(h, rng)
                            if h2 is not None and l == law:
                                yield dict(base, g=h.to_json(), others=[h2.to_json()], maps=[{n: n for n in h.names()}], laws=[[l]])
                                break
    def cost(self, item):
        return super().cost(item) + sum(20 * Gram.from_json(x).size() + 100 for x in item['others'])
    def describe(self, item):
        s = super().describe(item)
        for j in range(len(item['others'])): s += '\n  rewritten by %s into\n    ' % item['laws'][j] + self.describe_other(item, j + 1).replace('\n', '\n    ')
        return s
