"""Checks on the surface syntax: layout and precedence (C13), literals and classes (C14)."""
import random
import peg, gen, build, dyn, core
from peg import Gram, walk, Printer, I, unitlike
from dyn import DynCheck
from props import register, GENRULE, outcome, error_text

COMMENTS = ['/* */', '/* r = "a" */', '// ) / "\n', '/* /* x */ . */', '//\n', '/*\n*/']

class Varied(Printer):
    """Random presentation of a grammar: redundant parentheses, white space, comments, line breaks, bare types."""
    def __init__(self, rng, noise=1.0):
        self.rng = rng
        self.noise = noise

    def sp(self):
        r = self.rng.random() / self.noise
        if r > 0.35: return ''
        if r > 0.2: return ' '
        if r > 0.1: return self.rng.choice(['\n', '\t', '\n\n  ', ' \n'])
        return self.rng.choice(COMMENTS)

    def gap(self):
        return ' ' + self.sp()

    def at(self, e, lvl):
        s = self.expr(e)
        n = 1 if peg.level(e) < lvl else 0
        while self.rng.random() < 0.15 * self.noise and n < 4: n += 1
        for _ in range(n):
            s = '(' + self.sp() + s + self.sp() + ')'
        return s

    def bare(self, ty, nxt):
        """May the type be written without parentheses before the text nxt?"""
        return ty in ('()', '(^)') or nxt == '' or nxt[0].isalpha() and not nxt.startswith('as') or nxt[0] in '"'

    def typed(self, e, nxt):
        head = self.at(e[1], peg.PREFIX) + self.sp() + ':' + self.sp()
        ty = e[2]
        if ty == '()': return head + '(' + self.sp() + ')'
        if ty == '(^)': return head + '(' + self.sp() + '^' + self.sp() + ')'
        if self.bare(ty, nxt) and self.rng.random() < 0.6: return head + ty
        return head + '(' + ty + ')'

    def expr(self, e):
        if e[0] == 'asc': return self.typed(e, '')
        if e[0] == 'seq':
            out = []
            nxt = ''
            for c in reversed(e[1:]):
                s = None
                if c[0] == 'asc':
                    s = self.typed(c, nxt)
                    for _ in range(1 if self.rng.random() < 0.15 else 0): s = '(' + self.sp() + s + self.sp() + ')'
                else:
                    s = self.at(c, peg.TYPED)
                out.append(s)
                nxt = s
            return self.gap().join(reversed(out))
        return super().expr(e)

    def rule(self, r):
        n, t, e = r
        if t is None:
            # `r = e:T` may be written `r: T = e`
            if e[0] == 'asc' and self.rng.random() < 0.5: return self.rule((n, e[2], e[1]))
        elif self.rng.random() < 0.5:
            return n + self.gap() + '=' + self.gap() + self.typed(('asc', e, t), '')
        if t is None: head = n
        else:
            s = t
            if t not in ('()', '(^)') and self.rng.random() < 0.4: s = '(' + t + ')'
            head = n + self.sp() + ':' + self.gap() + s
        b = self.expr(e)
        while self.rng.random() < 0.15: b = '(' + self.sp() + b + self.sp() + ')'
        return head + self.gap() + '=' + self.gap() + b

class VariantCheck(DynCheck):
    """Several presentations of the same grammar, all compared with the reference."""
    variants = 3
    def grams(self, item):
        g = Gram.from_json(item['g'])
        return [g] * self.variants

    def order(self, item, j):
        rng = random.Random('order%d-%d' % (item['vs'], j))
        def f(decls):
            rules = [d for d in decls if d[0] == 'rule']
            rest = [d for d in decls if d[0] != 'rule']
            extra = [('item', t) for t in rng.sample(gen.ITEMS, rng.randint(0, 3)) if ('item', t) not in decls]
            out = list(rules)
            for d in rest + extra: out.insert(rng.randint(0, len(out)), d)
            return out
        return f if item['vs'] and j else None

    def body(self, g, item, j):
        if j == 0 or not item['vs']: return peg.macro_body(g)
        rng = random.Random('print%d-%d' % (item['vs'], j))
        return peg.macro_body(g, Varied(rng, item.get('noise', 1.0)), self.order(item, j))

    def module_text(self, name, g, item, j):
        return peg.module(name, g, self.body(g, item, j))

    def compile_message(self, item, j, errs):
        item['_variant'] = j
        return 'compile: %s does not compile: %s\n%s' % ('the canonical presentation' if j == 0 else 'another presentation of the grammar', dyn.diag_text(errs), self.body(Gram.from_json(item['g']), item, j) if j else '')

    def with_malformed(self, art, items, workdir, stats, shrinking, text, message, shown):
        """Items with texts that must be refused ('bad') besides the ones that are run."""
        import verdict
        good = [i for i, it in enumerate(items) if not it.get('bad')]
        out = [None] * len(items)
        if good:
            for i, v in zip(good, DynCheck.evaluate(self, art, [items[i] for i in good], workdir, stats, shrinking)): out[i] = v
        mods, owner = [], []
        for i, it in enumerate(items):
            for raw in it.get('bad') or []:
                mods.append('mod m%d { use support::{V, W, En, VShow}; use oak::oak; oak! {\n%s\n} }' % (len(mods), text(it, raw)))
                owner.append((i, raw))
        if mods:
            b = build.Batch(art, workdir, mods, metadata=True, main=False).compile()
            for (i, raw), e in zip(owner, b.errors):
                v = verdict.classify(e)
                if stats is not None:
                    stats.evaluations += 1
                    stats.add('malformed texts')
                    stats.nontrivial(('bad', raw))
                if v[0] not in ('rejected', 'hang') and out[i] is None:
                    out[i] = message % shown(raw) + '%s %s' % (v[0], v[1])
        return out

    def judge(self, item, preps, obs, stats):
        n = len(preps)
        p = preps[0]
        for q, c in enumerate(item['cases']):
            rule, mode, skip, again, s = c
            if mode == 't': continue
            ref = p.ref(rule, s, skip, mode == 'p')
            if ref is None: continue
            if stats is not None and self.interesting(c, ref, p):
                stats.nontrivial((p.g.key(), item['vs'], tuple(c)))
            for j in range(n):
                o = obs[n * q + j]
                if o is None or o.kind != 'OBS': continue
                m = self.compare(p, c, o, ref)
                if m:
                    item['_case'] = c
                    item['_variant'] = j
                    return '%s: %s_%s on %r: %s, with the presentation\n%s' % (m[0], 'parse' if mode == 'p' else 'recognize', rule, s, m[1], self.body(p.g, item, j))
        return None

    def compare(self, prep, case, o, ref):
        m = outcome(prep, case, o, ref)
        if m: return m
        if o.far != ref['far'] or o.exp != ref['exp']: return ('errors', 'farthest %d %r instead of %d %r' % (o.far, o.exp, ref['far'], ref['exp']))
        if case[1] == 'p' and ref['ok'] and o.data != ref['val']: return ('value', 'builds %s instead of %s' % (o.data, ref['val']))
        return None

    def sample(self, stats, item, preps, obs):
        stats.sample({'canonical': peg.macro_body(preps[0].g), 'variant': self.body(preps[0].g, item, 1)})

    def shrinks(self, item, msg):
        base = {k: v for k, v in item.items() if not k.startswith('_')}
        if item['vs']:
            yield dict(base, vs=0)
            if item.get('noise', 1.0) > 0.2: yield dict(base, noise=round(item.get('noise', 1.0) / 2, 2))
            for x in (1, 2, 3, 4, 5, 6, 7):
                if item['vs'] > x: yield dict(base, vs=x)
        for x in super().shrinks(item, msg): yield x

    def cost(self, item):
        return super().cost(item) + (20 + 2 * min(item['vs'], 8) + 10 * item.get('noise', 1.0) if item['vs'] else 0)

    def describe(self, item):
        g = Gram.from_json(item['g'])
        s = super().describe(item)
        if item['vs']: s += '\n  presented as\n' + '\n  and as\n'.join(self.body(g, item, j) for j in range(1, self.variants))
        return s

class Marked(Printer):
    """Marks the places between two tokens of the rules."""
    def sp(self): return '\x01'
    def gap(self): return ' \x01 '

JUNK = [';', ',', '=>', '@', '1', "'x'", '|', '%', '->', '~', 'b"x"', "b'x'", '1.5', '..=', '#', '||', '{}', '{"a"}', '^', '()', '[]', '[a]', '["a" "b"]', '["a" .]', "['a']", '[1]', '("a" ;)', '("a" 1)',
        '("a" = "b")', '= "a"', '/ /', '> 1', "> 'x'", '> "a"', '> (f)', '> box 1', '! ;', '& /', 'let', 'if', 'match', 'return', '-', '==', '!=', '<=', '&&', '("a" /)', '(/ "a")', '("a" >)', '(> a)', '(..)', '(!)',
        '("a" .. "b")', '(: u8)', '(:())', '> f > f', '> f > box f', '* *', '+ *', '? ?', '! !', '! &', ': u8 : u8', '.. ..', '... ..', '> f / > f', '("a" > f > f)', '("a" > f "b" > f > f)']

def junked(rng, g):
    """A grammar with tokens that are not part of the syntax, somewhere in a rule."""
    rules = [Marked().rule(r) + ' \x01' for r in g.rules]
    i = rng.randrange(len(rules))
    at = [j for j, c in enumerate(rules[i]) if c == '\x01' and rules[i][j - 1] != ':']      # not a type
    j = rng.choice(at)
    junk = rng.choice(JUNK)
    rules[i] = rules[i][:j] + ' ' + junk + ' ' + rules[i][j + 1:]
    fns = [f for f in (peg.fn_src(n, *g.fns[n]) for n in sorted(g.fns)) if f]
    return '\n'.join(r.replace('\x01', '') for r in rules + fns), junk

@register
class C13(VariantCheck):
    id = 'C13'
    technique = 'property-based testing: random presentations (parentheses, white space, comments, type annotations, interleaved items) of random grammars, all compared with a reference evaluator'
    rule = 'Random well-typed grammars printed once with minimal parentheses and twice with random redundant parentheses, layout, comments, rule annotations turned into ascriptions and back, and Rust items interleaved with the rules; non-trivial: the reference takes at least 4 steps and reads input.'
    modes = 'pr'
    inputs = 12
    quick = (32, 25)
    thorough = (400, 30)
    min_nontrivial = 1000
    def opts(self, rng, k):
        return gen.Opts(depth=5 if k % 2 else 4, asc=2.5, pred=3.0, rep=3.5, span=1.5, range=1.5, unit_rules=0.15, shapes=0.5 if k % 3 == 0 else 0.12, ann=0.5)
    def make_item(self, rng, k, tier):
        it = super().make_item(rng, k, tier)
        it['vs'] = rng.randint(1, 10 ** 9)
        if k % 5 == 4: it = dict(it, cases=[], bad=[junked(rng, Gram.from_json(it['g']))[0] for _ in range(6)])
        return it

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        return self.with_malformed(art, items, workdir, stats, shrinking, lambda it, text: text, 'malformed: tokens which are not part of the syntax are not refused with an error in\n%s\n', str)

    def shrinks(self, item, msg):
        if item.get('bad'):
            if len(item['bad']) > 1:
                for t in item['bad']: yield dict(item, bad=[t])
            return
        for x in super().shrinks(item, msg): yield x

    def cost(self, item):
        return super().cost(item) + 5 * sum(len(x) + 1 for x in item.get('bad', []))

    def describe(self, item):
        return '\n  or\n'.join(item['bad']) if item.get('bad') else super().describe(item)

# ------------------------------------------------------------------ C14
EDGES = [0, 1, 8, 9, 0xa, 0xd, 0x1f, 0x20, 0x22, 0x27, 0x2d, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0xa0, 0xad, 0xe9, 0xff, 0x100, 0x130,
         0x2c2, 0x301, 0x3b1, 0x3c9, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0x200b, 0x202e, 0x65e5, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff,
         0x10000, 0x1f600, 0x1f64f, 0x20000, 0xfffff, 0x10fffe, 0x10ffff]

def rand_char(rng):
    k = rng.random()
    if k < 0.45: return rng.choice('abcxyzAZ09_')
    if k < 0.8: return chr(rng.choice(EDGES))
    while True:
        x = rng.choice([rng.randint(0, 0x7f), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xffff), rng.randint(0x10000, 0x10ffff)])
        if not 0xd800 <= x <= 0xdfff: return chr(x)

def near(c, rng):
    x = ord(c) + rng.choice([-1, 1, -1, 1, 2, -64, 64, 256, 0x10000])
    if x < 0 or x > 0x10ffff or 0xd800 <= x <= 0xdfff: return c
    return chr(x)

class Escaped(Printer):
    """Prints literals with random styles of escapes (also raw strings)."""
    def __init__(self, rng):
        self.rng = rng

    def lit(self, s):
        r = self.rng
        if r.random() < 0.25 and '\r' not in s and not any(ch in '\u202a\u202b\u202c\u202d\u202e\u2066\u2067\u2068\u2069' for ch in s):
            n = 0
            while '"' + '#' * n in s: n += 1
            if r.random() < 0.3: n += 1
            if all(ord(ch) >= 0x20 or ch in '\n\t' for ch in s) and '\ufeff' not in s: return 'r' + '#' * n + '"' + s + '"' + '#' * n
        o = ['"']
        for i, c in enumerate(s):
            k = r.random()
            x = ord(c)
            named = {'\n': '\\n', '\r': '\\r', '\t': '\\t', '\\': '\\\\', '"': '\\"', "'": "\\'", '\0': '\\0'}
            if c in named and k < 0.6: o.append(named[c])
            elif k < 0.75 and c not in '"\\\r' and (x >= 0x20 or c in '\n\t') and x != 0x7f and (x < 0x80 or c.isprintable()): o.append(c)
            elif k < 0.88 and x < 0x80: o.append('\\x%02x' % x if r.random() < 0.5 else '\\x%02X' % x)
            else:
                h = r.choice(['%x', '%X', '%06x', '%04x']) % x
                if len(h) > 1 and r.random() < 0.2 and len(h) < 6: h = h[0] + '_' + h[1:]
                o.append('\\u{' + h + '}')
            if r.random() < 0.04 and i + 1 < len(s) and s[i + 1] not in ' \n\t\r':
                # line continuation: skips the white space that follows
                o.append('\\\n   ')
                if i + 1 < len(s) and s[i + 1] in '\u2028\u2029\u0085': o.pop()
        o.append('"')
        t = ''.join(o)
        # a continuation followed by a raw blank would eat it
        return t

    def cls(self, raw):
        return '[' + self.lit(raw) + ']'

def rand_class(rng):
    """-> (raw text, well-formed?)"""
    raw = ''
    k = rng.random()
    if k < 0.15: raw += '-'
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if raw else rng.choice([1, 1, 2, 3, 4] * 4 + [12, 40])):
        c = rand_char(rng)
        if c == '-': continue
        if rng.random() < 0.45:
            d = rand_char(rng)
            if rng.random() < 0.15:
                # ends close to each other, or that differ by high bits only
                x = ord(c) + rng.choice([1, 2, 0x20, 0x40, 0x80, 0x100, 0x400, 0x800, 0x1000, 0x8000, 0x10000, 0x20000, 0x100000])
                if x <= 0x10ffff and not 0xd800 <= x <= 0xdfff: d = chr(x)
            if d == '-': continue
            if ord(d) < ord(c) and rng.random() < 0.85: c, d = d, c
            raw += c + '-' + d
        else: raw += c
    if rng.random() < 0.12: raw += '-'
    if rng.random() < 0.06:
        i = rng.randint(0, len(raw))
        raw = raw[:i] + '-' + raw[i:]
    return raw

@register
class C14(VariantCheck):
    id = 'C14'
    technique = 'property-based testing: random Unicode literals and character classes in random escape styles, run on boundary characters and compared with set membership; malformed classes must be rejected'
    rule = 'Rules that are literals, classes, `.` or short sequences of them over all of Unicode, printed with three styles of escapes, run on the boundary characters of each interval and their neighbours; malformed classes are given to the macro. Non-trivial: non-ASCII, escaped or interval item with a non-empty input, or a malformed class.'
    modes = 'pr'
    quick = (56, 16)
    thorough = (300, 24)
    min_nontrivial = 2000
    variants = 2
    def make_item(self, rng, k, tier):
        if k % 6 == 5:
            bad = []
            while len(bad) < 4:
                raw = rand_class(rng)
                i = rng.randint(0, len(raw))
                raw = raw[:i] + rng.choice(['-', '--', '---']) + raw[i:]
                if rng.random() < 0.1: raw = ''
                try:
                    peg.class_intervals(raw)
                except peg.BadClass:
                    bad.append(raw)
            return {'g': Gram([('r', None, ('lit', 'a'))]).to_json(), 'cases': [], 'vs': rng.randint(1, 10 ** 9), 'bad': bad}
        rules, cases = [], []
        for n in range(rng.randint(3, 6)):
            nm = 'r%d' % n
            kind = rng.random()
            probe = []
            def cls():
                while True:
                    raw = rand_class(rng)
                    try:
                        iv = peg.class_intervals(raw)
                    except peg.BadClass:
                        continue
                    for lo, hi in iv: probe.extend([lo, hi, near(lo, rng), near(hi, rng)])
                    probe.extend(list(raw))
                    return ('cls', raw)
            def lit():
                s = ''.join(rand_char(rng) for _ in range(rng.choice([1, 1, 2, 3, 5] * 4 + [17, 64, 300])))
                probe.append(s)
                if len(s) > 2:
                    i = rng.randrange(len(s))
                    probe.append(s[:i] + near(s[i], rng) + s[i + 1:])
                return ('lit', s)
            if kind < 0.45: e = cls()
            elif kind < 0.75: e = lit()
            elif kind < 0.8: e = ('any',)
            elif kind < 0.9: e = ('plus', cls())
            else: e = ('seq', rng.choice([lit, cls])(), rng.choice([lit, cls, lambda: ('any',)])())
            rules.append((nm, None, e))
            ins = {''}
            for x in probe:
                ins.add(x)
                ins.add(x[:-1] + near(x[-1], rng) if x else '')
                if rng.random() < 0.4: ins.add(x + rng.choice(probe))
                if rng.random() < 0.2: ins.add(x[:-1])
            for _ in range(3): ins.add(rand_char(rng))
            if e[0] == 'seq':
                g1 = Gram([('r', None, e)])
                inp = gen.Inputs(g1, rng)
                for _ in range(6):
                    inp.fuel = 50
                    ins.add(inp.derive(e))
            for s in rng.sample(sorted(ins), min(len(ins), 16)):
                for m in 'pr': cases.append([nm, m, 0, 0, s])
        g = Gram(rules, {}, rng.choice(['str', 'str', 'str', 'fuel', 'vec', 'file']))
        return {'g': g.to_json(), 'cases': cases, 'vs': rng.randint(1, 10 ** 9)}

    def body(self, g, item, j):
        rng = random.Random('esc%d-%d' % (item['vs'], j))
        return peg.macro_body(g, Escaped(rng) if j else peg.CANON)

    def interesting(self, case, ref, prep):
        return case[4] != '' and any(ord(c) > 126 or ord(c) < 32 or c in '-"\\' for x in walk(prep.g.expr(case[0])) if x[0] in ('lit', 'cls') for c in x[1])

    def compare(self, prep, case, o, ref):
        m = super().compare(prep, case, o, ref)
        if m: return m
        if not ref['full']:
            t = error_text(case[4], ref['farc'], ref['exp'])
            if not o.debug.endswith(t): return ('text', 'message %r does not end with %r' % (o.debug, t))
        return None

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        def text(it, raw):
            return 'r = "a" %s' % Escaped(random.Random('bad%d' % it['vs'])).cls(raw)
        return self.with_malformed(art, items, workdir, stats, shrinking, text, 'malformed: the class [%s] is not rejected with an error: ', peg.rust_str)

    def valid_gram(self, g):
        try:
            for _, _, e in g.rules:
                for x in walk(e):
                    if x[0] == 'cls': peg.class_intervals(x[1])
        except peg.BadClass:
            return False
        return dyn.valid(g)

    def shrinks(self, item, msg):
        if item.get('bad'):
            if len(item['bad']) > 1:
                for raw in item['bad']: yield dict(item, bad=[raw])
            else:
                raw = item['bad'][0]
                for i in range(len(raw)):
                    try:
                        peg.class_intervals(raw[:i] + raw[i + 1:])
                    except peg.BadClass:
                        yield dict(item, bad=[raw[:i] + raw[i + 1:]])
                for x in range(1, 4): yield dict(item, vs=x)
            return
        for x in super().shrinks(item, msg): yield x

    def cost(self, item):
        return super().cost(item) + 5 * sum(len(x) + 1 for x in item.get('bad', []))

    def describe(self, item):
        if item.get('bad'): return '  malformed classes: ' + ' '.join('[' + peg.rust_str(r) + ']' for r in item['bad'])
        return super().describe(item)
