"""Generators of grammars and inputs. Everything is driven by a random.Random given by the caller."""
import peg
from peg import I, U, C, E, SPAN_TY, RANGE_TY, Gram, WF, unitlike, card, walk

class Retry(Exception):
    pass

RULE_NAMES = ['r', 's', 't', 'expr', 'rule_1', 'a_b', 'x2', 'item', 'ws', 'token', 'lets', 'p', 'numbers', 'q', 'list', 'z']
RETS = ['V', 'V', 'V', 'W', 'u32', 'String', 'Vec<char>', 'Option<char>', '(V,u32)', 'char']
BASE = 'abc'
# Rust items which may be written among the rules
ITEMS = ['use std::collections::HashMap as OtherMap;', 'pub struct Unrelated(pub u8);', 'const UNRELATED: &str = "r = a / b";',
         '#[allow(dead_code)]\nfn unrelated_fn<T: Clone>(t: &T) -> T { t.clone() }', 'mod unrelated_mod { pub fn r() {} }',
         'impl Unrelated0 { fn f(&self) {} }\nstruct Unrelated0;', 'enum Unrelated1 { R, S(u8) }', 'static UNRELATED2: u8 = b\'a\';',
         'trait Unrelated3 { fn r(&self) -> u8 { 1 } }', '/// documented\n#[derive(Clone)]\nstruct Unrelated4 { r: u8 }',
         "type OtherStream<'a> = Vec<&'a u8>;", 'pub type Streams = u8;', 'type ByteStream = Vec<u8>;', 'struct Stream2;', 'type Input = String;']
ODD = ['é', 'ß', '日', '😀', '\n', '\r', '\t', ' ', '-', '"', '\\', '`', '0', '9', '_', '[', ']', '\u0301', '\u2028', '\x7f', '\x00', '{', '}', 'A', 'Z', 'z']

def pick(rng, table):
    """table: list of (weight, value)."""
    tot = sum(w for w, _ in table)
    x = rng.random() * tot
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]

class Opts:
    """What the generator may produce, and how often."""
    def __init__(self, **kw):
        self.streams = [('str', 3), ('fuel', 5), ('vec', 1), ('strx', 1), ('file', 1), ('gen', 0.4), ('where', 0.4)]
        self.rules = (1, 4)
        self.depth = 4
        self.span = 1.0
        self.range = 1.0
        self.act = 3.0
        self.asc = 1.0
        self.pred = 2.0
        self.alt = 3.0
        self.seq = 3.0
        self.rep = 3.0
        self.call = 2.0
        self.rec = 0.35          # probability of allowing recursion
        self.unit_rules = 0.25   # probability that a rule is invisible
        self.box = 0.15
        self.odd = 0.25          # probability of an alphabet with odd characters
        self.values = True       # False: recognizer only grammars, values are irrelevant (all types invisible or char)
        self.maxsize = 45
        self.enums = 0.15
        self.ann = 0.25          # probability that a rule with a Rust type has an annotation
        self.shapes = 0.12       # probability of a Rust type of another shape (reference, array, function, path)
        self.items = 0.12        # probability of other Rust items
        self.wide = 0.05         # probability that a sequence or choice is wide
        self.comps = 9           # components of a tuple
        self.reuse = 0.3         # probability that the type of a rule is made of the one of a previous rule
        self.tuples = 0.2        # probability that a grammar is about calls to a rule with several components
        self.nest = 0.1          # probability that the contents of a span start after it, with a choice
        self.paths = 0.25        # probability of giving an action by a path in a branch of a choice
        self.__dict__.update(kw)

class Gen:
    def __init__(self, rng, opts=None):
        self.rng = rng
        self.o = opts or Opts()

    # ------------------------------------------------------------ atoms
    def alphabet(self):
        r = self.rng
        a = list(BASE[:r.choice([2, 2, 3, 3, 3])])
        if r.random() < self.o.odd:
            a += r.sample(ODD, r.randint(1, 3))
        return a

    def char(self):
        return self.rng.choice(self.alpha)

    def lit(self, allow_empty=False):
        r = self.rng
        if allow_empty and r.random() < 0.3:
            return ('lit', '')
        n = pick(r, [(6, 1), (3, 2), (1, 3), (0.15, 0)]) or r.choice([r.randint(4, 20), r.randint(20, 80)])
        return ('lit', ''.join(self.char() for _ in range(n)))

    def cls(self):
        r = self.rng
        for _ in range(20):
            raw = ''
            if r.random() < 0.1:
                raw += '-'
            for _ in range(r.choice([r.randint(3, 8), r.randint(3, 8), r.randint(8, 30)]) if r.random() < 0.08 else r.randint(1, 2) if raw == '' else r.randint(0, 2)):
                c = self.char()
                if c == '-':
                    continue
                if r.random() < 0.35:
                    d = self.char()
                    if d == '-' or ord(d) < ord(c):
                        continue
                    raw += c + '-' + d
                else:
                    raw += c
            if r.random() < 0.06 and raw:
                raw += '-'
            try:
                if raw and peg.class_intervals(raw):
                    return ('cls', raw)
            except peg.BadClass:
                pass
        return ('cls', 'a')

    # ------------------------------------------------------------ types
    def rand_ty(self, depth=2, visible=False):
        r, o = self.rng, self.o
        t = [(4, 'C')]
        if not visible:
            t += [(3, 'I'), (0.8, 'U')]
        if depth > 0:
            t += [(2, 'L'), (2, 'O'), (2.5, 'T')]
            if o.act: t += [(o.act, 'R')]
            if o.span and self.spans: t += [(0.8 * o.span, 'S')]
            if o.range and self.ranges: t += [(0.5 * o.range, 'G')]
        k = pick(r, t)
        if k == 'I': return I
        if k == 'U': return U
        if k == 'C': return C
        if k == 'L': return ('L', U if r.random() < 0.12 else self.rand_ty(depth - 1, True))
        if k == 'O': return ('O', U if r.random() < 0.12 else self.rand_ty(depth - 1, True))
        if k == 'R': return self.rand_ret()
        if k == 'G': return RANGE_TY
        if k == 'S':
            if r.random() < 0.5:
                return SPAN_TY
            return self.flat([SPAN_TY, self.rand_ty(depth - 1, True)])
        n = r.randint(2, 3) if r.random() > self.o.wide else r.randint(4, 8)
        return self.flat([self.rand_ty(depth - 1 if n < 4 else 0, True) for _ in range(n)])

    def flat(self, ts):
        out = []
        for t in ts:
            out += list(t[1:]) if t[0] == 'T' else [] if unitlike(t) else [t]
        if len(out) > self.o.comps:
            raise Retry()
        if not out: return I
        return out[0] if len(out) == 1 else ('T',) + tuple(out)

    def rand_ret(self):
        r = self.rng
        if r.random() < self.o.enums:
            return ('R', 'Box<En>' if r.random() < 0.4 else 'En')
        t = r.choice(RETS)
        if r.random() < self.o.box:
            t = 'Box<' + t + '>'
            if r.random() < 0.15: t = 'Box<' + t + '>'
        elif r.random() < self.o.shapes: t = r.choice(["&'static[%s;1]", '[%s;2]', '::std::boxed::Box<%s>', '(%s,)', '%s']) % t if r.random() < 0.8 else 'fn()->u32'
        return ('R', t)

    # ------------------------------------------------------------ helpers
    def width(self, d):
        """Number of operands of a sequence or choice, and the depth left in them: wide ones are flat."""
        r = self.rng
        if r.random() < self.o.wide: return r.randint(4, 9), min(d, 1)
        return (2 if r.random() < 5 / 7 else 3), d

    def attr(self, e):
        errs = []
        a = self.wf.attr(e, errs)
        if errs:
            raise Retry()
        return a

    def good(self, f, tries=12):
        """First result of f accepted by the local well-formedness analysis."""
        for _ in range(tries):
            try:
                e = f()
                self.attr(e)
                return e
            except Retry:
                self.count += 1
                if self.count > 4000:
                    raise
        raise Retry()

    def callable(self, ty, barrier):
        out = []
        for i, n in enumerate(self.names):
            if self.tys[i] != ty:
                continue
            if i < self.cur or (self.recursive and (barrier or self.inv_rec and ty == I)):
                out.append(n)
        return out

    def fn(self, ret, arity):
        r = self.rng
        cands = [n for n, (t, a) in self.fns.items() if t == ret and a == arity]
        if cands and r.random() < 0.6:
            return r.choice(cands)
        n = 'act_%d' % len(self.fns)
        self.fns[n] = (ret, arity)
        return n

    # ------------------------------------------------------------ untyped expressions (values not needed)
    def untyped(self, d, consume=False, bar=True):
        return self.good(lambda: self.untyped0(d, consume, bar))

    def untyped0(self, d, consume, bar):
        r, o = self.rng, self.o
        if d <= 0 or r.random() < 0.15:
            return pick(r, [(3, self.lit()), (1, ('any',)), (2, self.cls())])
        t = [(o.seq, 'seq'), (o.alt, 'alt'), (o.call, 'nt')]
        if consume:
            t += [(o.rep * 0.5, 'plus')]
        else:
            t += [(o.rep, 'rep'), (o.pred, 'pred')]
        if self.fns_ok and o.act: t += [(0.4 * o.act, 'act')]
        if o.asc: t += [(0.3 * o.asc, 'asc')]
        if self.spans and o.span: t += [(0.3 * o.span, 'span')]
        if self.ranges and o.range: t += [(0.3 * o.range, 'range')]
        k = pick(r, t)
        if k == 'seq':
            n, d = self.width(d)
            i = r.randrange(n)
            return ('seq',) + tuple(self.untyped(d - 1, consume and j == i, bar) for j in range(n))
        if k == 'alt':
            n, d = self.width(d)
            return ('alt',) + tuple(self.untyped(d - 1, consume, bar) for _ in range(n))
        if k == 'nt':
            c = self.callable_any(bar)
            if not c: raise Retry()
            return ('nt', r.choice(c))
        if k == 'plus': return ('plus', self.untyped(d - 1, True, bar))
        if k == 'rep':
            k = r.choice(['star', 'plus', 'opt'])
            return (k, self.untyped(d - 1, k != 'opt', bar))
        if k == 'pred': return (r.choice(['not', 'and']), self.untyped(d - 1, False, bar))
        if k == 'act':
            e = self.untyped(d - 1, consume, bar)
            return ('act', e, self.fn('V', self.arity_guess(e)), False)
        if k == 'asc': return ('asc', self.untyped(d - 1, consume, bar), r.choice(['()', '(^)']))
        if k in ('span', 'range'): return (k, self.untyped(d - 1, consume, bar))

    def arity_guess(self, e):
        return self.rng.randint(0, 3)

    def callable_any(self, bar):
        out = []
        for i, n in enumerate(self.names):
            if i < self.cur or (self.recursive and (bar or (self.inv_rec and self.tys[i] == I))):
                out.append(n)
        return out

    # ------------------------------------------------------------ typed expressions
    def typed(self, T, d, consume=False, bar=False):
        return self.good(lambda: self.typed0(T, d, consume, bar))

    def glue(self, d, bar):
        """A small invisible expression."""
        return self.typed(I, min(d, 1), False, bar)

    def typed0(self, T, d, consume, bar):
        r, o = self.rng, self.o
        leafy = d <= 0
        t = []
        calls = self.callable(T, bar)
        if calls: t.append((o.call * (3 if T[0] == 'T' else 1.5 if leafy else 1), 'nt'))
        if not leafy:
            t.append((o.alt * 0.6, 'alt'))
            if T != U:
                t.append((o.seq * 0.5, 'wrap'))
        k = T[0]
        if k == 'I':
            t.append((3, 'lit'))
            if not leafy:
                t.append((o.rep * 0.6, 'rep'))
                if not consume: t.append((o.pred, 'pred'))
                if o.asc: t.append((0.6 * o.asc, 'asc'))
        elif k == 'U':
            t.append((3, 'asc'))
            if not leafy: t.append((o.seq, 'useq'))
        elif k == 'C':
            t.append((3, 'atom'))
        elif k == 'O':
            if consume: t.append((0.01, 'fail'))
            else: t.append((4, 'opt'))
        elif k == 'L':
            t.append((4, 'list'))
        elif k == 'T':
            t.append((5, 'tup'))
            if T[1] == SPAN_TY and self.spans: t.append((6, 'span'))
        elif T == SPAN_TY:
            t.append((5, 'span'))
        elif T == RANGE_TY:
            t.append((5, 'range'))
        elif k == 'R':
            t.append((5, 'act'))
            if o.asc and not leafy: t.append((0.5 * o.asc, 'rasc'))
        c = pick(r, t)
        if c == 'fail': raise Retry()
        if c == 'nt': return ('nt', r.choice(calls))
        if c == 'lit': return self.lit(allow_empty=not consume)
        if c == 'atom': return ('any',) if r.random() < 0.4 else self.cls()
        if c == 'alt':
            n, d = self.width(d)
            if T == I and r.random() < 0.35:
                # units of both kinds: the choice is invisible
                i = r.randrange(n)
                j = (i + r.randint(1, n - 1)) % n
                return ('alt',) + tuple(self.typed(I if x == i else U if x == j else r.choice([I, U]), d - 1, consume, bar) for x in range(n))
            if o.act and r.random() < o.paths and peg.callable_ty(T):
                # actions of unknown type, whose type is given by another branch
                i = r.randrange(n)
                return ('alt',) + tuple(self.typed(T, d - 1, consume, bar) if x == i or r.random() < 0.3 else self.by_path(T, d - 1, consume) for x in range(n))
            return ('alt',) + tuple(self.typed(T, d - 1, consume, bar) for _ in range(n))
        if c == 'wrap':
            where = r.random()
            g = self.glue(d, bar) if r.random() < 0.8 or k == 'I' else self.typed(U, 1, False, bar)
            if where < 0.45: return ('seq', g, self.typed(T, d - 1, consume, bar))
            if where < 0.9: return ('seq', self.typed(T, d - 1, consume, bar), g)
            return ('seq', g, self.typed(T, d - 1, consume, bar), self.glue(d, bar))
        if c == 'useq':
            if r.random() < 0.3:
                return ('seq', self.typed(U, d - 1, consume, bar), self.typed(U, d - 1, False, bar))
            es = [self.glue(d, bar), self.typed(U, d - 1, consume, bar)]
            r.shuffle(es)
            return ('seq',) + tuple(es)
        if c == 'rep':
            k = r.choice(['star', 'plus', 'opt']) if not consume else 'plus'
            return (k, self.typed(I, d - 1, k != 'opt', bar))
        if c == 'pred': return (r.choice(['not', 'and']), self.untyped(d - 1, False, True))
        if c == 'asc': return ('asc', self.untyped(max(d - 1, 0), consume, True), '(^)' if T == I else '()')
        if c == 'opt': return ('opt', self.typed(T[1], d - 1, False, bar))
        if c == 'list':
            k = 'plus' if consume else r.choice(['star', 'plus'])
            return (k, self.typed(T[1], d - 1, True, bar))
        if c == 'span':
            rest = T[2:] if T[0] == 'T' else ()
            R = self.flat(list(rest)) if rest else (I if r.random() < 0.7 else U)
            if r.random() < o.nest: return ('span', self.inside(lambda d: self.typed(R, d, False, bar), max(d, 2)))
            e = self.typed(R, d - 1, consume, bar)
            return ('span', e)
        if c == 'range':
            if r.random() < o.nest: return ('range', self.inside(lambda d: self.untyped(max(d, 1), False, True), max(d, 2)))
            return ('range', self.untyped(max(d - 1, 1), consume, True))
        if c == 'tup':
            comps = list(T[1:])
            groups = []
            # the components of a rule that can be called
            tuples = [t[1:] for t in self.tys if t[0] == 'T' and len(t) < len(T) and self.callable(t, bar)]
            at = [(i, t) for t in tuples for i in range(len(comps) - len(t) + 1) if tuple(comps[i:i + len(t)]) == tuple(t)]
            if at and r.random() < 0.5:
                i, t = r.choice(at)
                groups = [[c] for c in comps[:i]] + [list(t)]
                comps = comps[i + len(t):]
            while comps:
                m = 1 if r.random() < 0.75 else r.randint(1, len(comps))
                if m == len(comps) and not groups:
                    m = max(1, m - 1)
                groups.append(comps[:m])
                comps = comps[m:]
            i = r.randrange(len(groups))
            es = []
            for j, g in enumerate(groups):
                if r.random() < 0.25: es.append(self.glue(d, bar))
                G = g[0] if len(g) == 1 else ('T',) + tuple(g)
                es.append(self.typed(G, d - 1, consume and i == j, bar))
            if r.random() < 0.2: es.append(self.glue(d, bar))
            return ('seq',) + tuple(es)
        if c == 'rasc':
            if T[1] in ('En', 'Box<En>'): return self.action(T, d, consume)
            if r.random() < 0.3 and peg.callable_ty(T): return ('asc', self.by_path(T, d - 1, consume), T[1])
            return ('asc', self.typed(T, d - 1, consume, True), T[1])
        if c == 'act': return self.action(T, d, consume)
        raise ValueError(c)

    def inside(self, f, d):
        """The contents of a span that start further, with a choice or not."""
        r = self.rng
        g = self.typed(I, 1, True, True)
        if r.random() < 0.3: return ('seq', g, f(d - 1))
        return ('seq', g, ('alt', f(d - 1), f(d - 1) if r.random() < 0.6 else f(0)))

    def action(self, T, d, consume):
        r, o = self.rng, self.o
        ret = T[1]
        if ret in ('En', 'Box<En>'):
            k, opty = r.choice([('K0', I), ('K1', I), ('A', C), ('L', ('L', C)), ('P', ('T', C, C)), ('mk', I), ('of', C), ('two', ('T', C, C))])
            e = self.typed(opty, d - 1, consume, True)
            return ('asc', ('act', e, 'En::' + k, ret != 'En'), ret)
        opty = self.rand_ty(min(2, d))
        e = self.typed(opty, d - 1, consume, True)
        boxed = False
        if ret.startswith('Box<'):
            boxed = r.random() < 0.6
            if boxed: ret = ret[4:-1]
        return ('act', e, self.fn(ret, card(opty)), boxed)

    def by_path(self, T, d, consume):
        """An action given by a path, which returns T."""
        r = self.rng
        if d > 0 and r.random() < 0.15:
            return ('alt', self.by_path(T, d - 1, consume), self.by_path(T, d - 1, consume))
        if d > 0 and r.random() < 0.15:
            es = [self.glue(d, True), self.by_path(T, d - 1, consume)]
            r.shuffle(es)
            return ('seq',) + tuple(es)
        opty = self.rand_ty(min(2, max(d, 0)))
        e = self.typed(opty, d - 1, consume, True)
        ret = peg.show_ty(T)
        boxed = ret.startswith('Box<') and r.random() < 0.5
        return ('act', e, self.fn(ret[4:-1] if boxed else ret, card(opty)), boxed, 'self::')

    # ------------------------------------------------------------ grammars
    def setup(self):
        r, o = self.rng, self.o
        self.count = 0
        self.alpha = self.alphabet()
        self.stream = pick(r, [(w, s) for s, w in o.streams])
        self.spans = self.stream in ('str', 'strx', 'file') and o.span > 0
        self.ranges = o.range > 0
        self.fns = {}
        self.fns_ok = True
        n = r.randint(*o.rules)
        self.names = r.sample(RULE_NAMES, n)
        self.recursive = r.random() < o.rec
        self.inv_rec = self.recursive
        self.tys = []
        tuples = o.values and n > 1 and r.random() < o.tuples
        for i in range(n):
            if tuples and i == 0: self.tys.append(self.flat([self.rand_ty(0, True) for _ in range(r.randint(2, 6))]))
            elif not o.values or r.random() < o.unit_rules: self.tys.append(I)
            elif r.random() < (0.7 if tuples else o.reuse) and [t for t in self.tys if not unitlike(t)]:
                # a type made of the one of a previous rule, which can be called there
                t = self.tys[0] if tuples else r.choice([t for t in self.tys if not unitlike(t)])
                k = r.choice('=LOTTU')
                if k == 'L': t = ('L', t)
                elif k == 'O': t = ('O', t)
                elif k == 'U': t = self.flat([t, t])
                elif k == 'T':
                    ts = [self.rand_ty(1, True) for _ in range(r.randint(1, 2))]
                    ts.insert(r.randint(0, len(ts)), t)
                    t = self.flat(ts)
                self.tys.append(t)
            else: self.tys.append(self.rand_ty(2))
        self.cur = 0
        self.wf = WF.__new__(WF)
        self.wf.g = None
        # optimistic hypothesis on the rules not yet generated
        self.wf.table = {n: (True, True, True, False) for n in self.names}

    def grammar(self):
        for _ in range(300):
            try:
                g = self.grammar0()
            except Retry:
                continue
            if g is not None:
                return g
        raise RuntimeError('generator exhausted')

    def grammar0(self):
        r, o = self.rng, self.o
        self.setup()
        rules = []
        for i, n in enumerate(self.names):
            self.cur = i
            T = self.tys[i]
            ann = None
            d = o.depth - (1 if r.random() < 0.3 else 0)
            if T[0] == 'R' and T not in (SPAN_TY, RANGE_TY) and o.asc and r.random() < o.ann:
                ann = T[1]
                e = self.typed(T, d, r.random() < 0.4, True)
                if T[1] not in ('En', 'Box<En>') and r.random() < 0.3: e = ('asc', e, T[1])
            elif unitlike(T) and o.asc and r.random() < 0.15:
                ann = '(^)' if T == I else '()'
                e = self.untyped(d, r.random() < 0.4, True)
                if r.random() < 0.5:
                    # an annotation over an ascription, of another type
                    if r.random() < 0.5: e = ('asc', e, r.choice(['()', '(^)']))
                    else:
                        R = self.rand_ret()
                        e = ('asc', self.typed(R, d - 1, r.random() < 0.4, True), R[1])
            else:
                e = self.typed(T, d, r.random() < 0.4, False)
            rules.append((n, ann, e))
            self.wf.table[n] = self.attr(e if ann is None else ('asc', e, ann))
        if r.random() < 0.5:
            r.shuffle(rules)
        g = Gram(rules, self.fns, self.stream, r.sample(ITEMS, r.randint(1, 2)) if r.random() < o.items else ())
        if g.size() > o.maxsize:
            return None
        self.prune(g)
        w = WF(g)
        if not w.ok:
            return None
        ty = peg.typing(g)
        if ty[0] != 'ok':
            self.rejected = ty
            return None
        if ty[1].miscalled: return None     # a unit-like rule of another kind than expected
        return g

    def prune(self, g):
        used = set()
        for _, _, e in g.rules:
            for x in walk(e):
                if x[0] == 'act': used.add(x[2])
        g.fns = {k: v for k, v in g.fns.items() if k in used}

# ------------------------------------------------------------------ big rules
def big_gram(rng, opts, tries=60):
    """A grammar with a big rule: dozens of components, branches or levels."""
    r = rng
    old = dict(opts.__dict__)
    opts.__dict__.update(rules=(1, 2), depth=2, maxsize=15, comps=60, wide=0)
    for _ in range(tries):
        G = Gen(rng, opts)
        try:
            g = G.grammar()
            G.count = 0
            G.cur = len(G.names)
            G.recursive = False
            values = opts.values
            def one(T, d=1, consume=False):
                return G.typed(T, d, consume, True) if values else G.untyped(d, consume)
            n = r.choice([r.randint(10, 20), r.randint(12, 40), r.randint(26, 30)])
            k = r.choice(['tuple', 'tuple', 'options', 'choice', 'seq', 'deep', 'list'])
            if k in ('tuple', 'options', 'list'):
                es = []
                for _ in range(n):
                    es.append(one(G.rand_ty(1, True) if k != 'options' else (r.choice('OL'), r.choice([C, C, ('T', C, C)])), r.choice([1, 1, 2]), k == 'list'))
                    if r.random() < 0.15: es.append(G.lit() if r.random() < 0.5 else (r.choice(['not', 'and']), G.untyped(1)))
                if r.random() < 0.3:
                    i = r.randrange(len(es) - 2)
                    j = r.randint(i + 2, len(es))
                    es[i:j] = [('seq',) + tuple(es[i:j])]
                e = ('seq',) + tuple(es) if len(es) > 1 else es[0]
                if k == 'list': e = (r.choice(['star', 'plus']), e)
            elif k == 'choice':
                T = G.rand_ty(1, False)
                e = ('alt',) + tuple(('seq', ('lit', 'abc'[i % 3] * (i % 4) + 'xyz+-'[i % 5] + 'k' * (i // 5)), one(T, 1)) if r.random() < 0.6 else one(T, 1, True) for i in range(n))
                if r.random() < 0.5: e = ('seq', one(C), e, one(C))
            elif k == 'seq':
                e = ('seq',) + tuple(('alt', one(I, 1, True), one(I, 1, True)) if r.random() < 0.4 else one(I, 1) for _ in range(n))
            else:
                T = G.rand_ty(1, True)
                e = one(T)
                for i in range(n // 2):
                    m = r.randrange(6)
                    l = ('lit', r.choice('ab(') * r.randint(1, 2))
                    if m == 0 and values:
                        e = (r.choice(['opt', 'star', 'plus']), ('seq', l, e))
                        T = ('L' if e[0] != 'opt' else 'O', T)
                    elif m == 1 and G.spans:
                        e = ('span', ('seq', l, e))
                        T = G.flat([SPAN_TY, T])
                    elif m == 2 and values:
                        e = ('seq', l, e, one(C))
                        T = G.flat([T, C])
                    elif m == 3 and values and opts.act:
                        e = ('act', ('seq', l, e), G.fn('V', card(T)), False)
                        T = ('R', 'V')
                    elif m == 4: e = ('seq', l, e, G.lit())
                    else: e = ('alt', ('seq', l, e), one(T, 1))
            m = r.randrange(6)
            if m == 0 and values: e = ('seq', ('alt', ('lit', 'a'), ('lit', 'b')), e)
            elif m == 1 and G.spans: e = ('span', e)
        except Retry:
            continue
        name = next(n for n in RULE_NAMES if n not in G.names)
        h = g.copy(rules=[(n, t, b) for n, t, b in g.rules] + [(name, None if values else '(^)', e)], fns=dict(G.fns))
        G.prune(h)
        if not WF(h).ok: continue
        kind, ty = peg.typing(h)
        if kind != 'ok' or ty.miscalled: continue
        if any(x[0] == 'act' and x[2] in h.fns and h.fns[x[2]][1] > 40 for _, _, b in h.rules for x in walk(b)): continue
        opts.__dict__.update(old)
        return h
    opts.__dict__.update(old)
    return None

# ------------------------------------------------------------------ choices between close types
def flat_ty(ts):
    out = []
    for t in ts: out += list(t[1:]) if t[0] == 'T' else [] if unitlike(t) else [t]
    if len(out) > 6: raise Retry()
    return I if not out else out[0] if len(out) == 1 else ('T',) + tuple(out)

def vary_ty(rng, T):
    """A type close to T, often another one."""
    r = rng
    k = T[0]
    other = r.choice([C, C, ('L', C), ('O', C), ('R', 'V'), ('R', 'W')])
    t = [(0.4, 'list'), (0.4, 'opt'), (0.6, 'after'), (0.6, 'before'), (0.5, 'other'), (0.25, 'unit')]
    if k == 'T': t += [(2, 'droplast'), (2, 'dropfirst'), (1, 'swap'), (2, 'inside'), (0.7, 'after'), (0.7, 'before'), (0.5, 'twice')]
    if k in 'LO': t += [(1, 'switch'), (0.7, 'unwrap'), (2, 'inside')]
    m = pick(r, t)
    cs = list(T[1:])
    if m in ('list', 'opt'): return (m[0].upper(), U if T == I else T)
    if m == 'after': return flat_ty([T, other])
    if m == 'before': return flat_ty([other, T])
    if m == 'other': return other
    if m == 'unit': return r.choice([I, U])
    if m == 'droplast': return flat_ty(cs[:-1])
    if m == 'dropfirst': return flat_ty(cs[1:])
    if m == 'swap':
        i, j = r.sample(range(len(cs)), 2)
        cs[i], cs[j] = cs[j], cs[i]
        return ('T',) + tuple(cs)
    if m == 'twice': return flat_ty(cs + cs[-1:])
    if m == 'switch': return ({'L': 'O', 'O': 'L'}[k], T[1])
    if m == 'unwrap': return T[1]
    if k == 'T':
        i = r.randrange(len(cs))
        cs[i] = vary_ty(r, cs[i])
        return flat_ty(cs)
    x = vary_ty(r, T[1])
    return (k, U if unitlike(x) else x)

def by_paths(e, rng):
    """Some of the actions are given by paths: Oak does not know their types."""
    cs = [by_paths(c, rng) for c in peg.children(e)]
    e = peg.with_children(e, cs)
    if e[0] == 'act' and len(e) == 4 and '::' not in e[2] and rng.random() < 0.6: return e + ('self::',)
    return e

def near_gram(rng, opts, tries=300):
    """A grammar whose last rule has a choice between expressions of equal or close types."""
    r = rng
    for _ in range(tries):
        G = Gen(rng, opts)
        try:
            g = G.grammar()
            G.cur = len(G.names)
            G.recursive = False
            T = G.rand_ty(2, r.random() < 0.8)
            if r.random() < 0.1: T = (r.choice('LO'), flat_ty([('R', 'V'), T]))
            T2 = T if r.random() < 0.2 else vary_ty(r, T)
            es = [G.typed(T, r.choice([1, 1, 2]), True, True), G.typed(T2, r.choice([1, 1, 2]), True, True)]
            if r.random() < 0.3: es.append(G.typed(r.choice([T, T2]), 1, True, True))
            r.shuffle(es)
            e = ('alt',) + tuple(es)
            m = r.randrange(9)
            if m == 0: e = ('seq', ('lit', 'a'), e)
            elif m == 1: e = ('seq', e, ('any',))
            elif m == 2: e = (r.choice(['opt', 'plus']), e)
            elif m == 3: e = ('alt', e, G.typed(T, 1, True, True))
            elif m == 4: e = ('asc', e, r.choice(['()', '(^)']))
            elif m == 5: e = ('seq', (r.choice(['not', 'and']), e), ('any',))
            if r.random() < 0.35:
                if r.random() < 0.5: e = r.choice(es)
                e = by_paths(e, r)
        except Retry:
            continue
        name = next(n for n in RULE_NAMES if n not in G.names)
        h = g.copy(rules=[(n, t, b) for n, t, b in g.rules] + [(name, None, e)], fns=dict(G.fns))
        G.prune(h)
        return h
    return None

# ------------------------------------------------------------------ inputs
class Inputs:
    """Inputs for a rule: sentences derived from the grammar, mutations of them, short words."""
    def __init__(self, g, rng, extra=''):
        self.g = g
        self.rng = rng
        self.bodies = {n: g.expr(n) for n in g.names()}
        al = set()
        for n in g.names():
            for e in walk(self.bodies[n]):
                if e[0] == 'lit': al |= set(e[1])
                elif e[0] == 'cls':
                    for lo, hi in peg.class_intervals(e[1]):
                        al |= {lo, hi}
        self.alpha = sorted(al) or ['a']
        self.noise = self.alpha + ['x', '\n', 'é'] + list(extra)

    fuel = 300
    def derive(self, e, d=0):
        r = self.rng
        k = e[0]
        self.fuel -= 1
        if self.fuel < 0: return ''
        if k == 'lit': return e[1]
        if k == 'any': return r.choice(self.alpha) if r.random() < 0.93 else r.choice(self.noise)
        if k == 'cls':
            iv = peg.class_intervals(e[1])
            lo, hi = r.choice(iv)
            if hi < lo: return ''
            for _ in range(5):
                x = r.choice([ord(lo), ord(hi), r.randint(ord(lo), ord(hi))])
                if not 0xd800 <= x <= 0xdfff:
                    return chr(x)
            return lo
        if k == 'nt':
            if d > 12: return ''
            return self.derive(self.bodies[e[1]], d + 1)
        if k == 'seq': return ''.join(self.derive(c, d) for c in e[1:])
        if k == 'alt': return self.derive(r.choice(e[1:]), d)
        if k in ('star', 'plus'):
            n = pick(r, [(3, 0), (4, 1), (3, 2), (1, 3)])
            if k == 'plus' and n == 0: n = 1
            if d > 8: n = min(n, 1)
            return ''.join(self.derive(e[1], d + 1) for _ in range(n))
        if k == 'opt': return self.derive(e[1], d + 1) if r.random() < 0.6 and d < 12 else ''
        if k in ('not', 'and'): return ''
        if k == 'ext': return ''
        return self.derive(e[1], d)

    def mutate(self, s):
        r = self.rng
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(6)
            i = r.randint(0, len(s))
            if k == 0: s = s[:i] + r.choice(self.noise) + s[i:]
            elif k == 1: s = s[:i] + s[i + 1:]
            elif k == 2: s = s[:i] + r.choice(self.alpha) + s[i + 1:]
            elif k == 3: s = s[:i]
            elif k == 4:
                j = r.randint(i, min(len(s), i + 4))
                s = s[:j] + s[i:j] + s[j:]
            else: s = s + r.choice(self.noise)
        return s

    def sample(self, rule, n, maxlen=60):
        r = self.rng
        out = []
        seen = set()
        def add(s):
            if len(s) <= maxlen and s not in seen:
                seen.add(s)
                out.append(s)
        add('')
        for c in r.sample(self.alpha, min(2, len(self.alpha))): add(c)
        for _ in range(n * 4):
            if len(out) >= n: break
            k = r.random()
            if k < 0.12:
                add(''.join(r.choice(self.alpha) for _ in range(r.randint(1, 4))))
            else:
                self.fuel = r.choice([60, 150, 300])
                s = self.derive(('nt', rule))
                if r.random() < 0.55: s = self.mutate(s)
                add(s)
        return out

# ------------------------------------------------------------------ unconstrained grammars
class RawGen:
    """Small grammars generated without any well-formedness or typing constraint."""
    def __init__(self, rng, rules=(1, 4), depth=3, values=False, acts=False, rec=0.5, empty=0.15):
        self.rng, self.rules, self.depth, self.values, self.acts, self.rec, self.empty = rng, rules, depth, values, acts, rec, empty

    def atom(self):
        r = self.rng
        k = r.random()
        if k < self.empty: return ('lit', '')
        if k < 0.6: return ('lit', ''.join(r.choice('abc') for _ in range(r.choice([1, 1, 2]))))
        if k < 0.8: return ('any',)
        return ('cls', r.choice(['a', 'ab', 'a-c', 'b-']))

    def expr(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.12:
            if self.names and r.random() < 0.45:
                c = self.names if self.recursive else self.names[:self.cur]
                if c: return ('nt', r.choice(c))
            return self.atom()
        t = [(4, 'seq'), (3, 'alt'), (1.2, 'star'), (1.2, 'plus'), (1.5, 'opt'), (0.8, 'not'), (0.8, 'and'), (0.5, 'asc')]
        if self.acts: t += [(1.5, 'act'), (0.4, 'span'), (0.4, 'range')]
        k = pick(r, t)
        if k in ('seq', 'alt'):
            n = pick(r, [(5, 2), (2, 3), (0.25, 0)]) or r.randint(4, 8)
            return (k,) + tuple(self.expr(d - 1 if n < 4 else 0) for _ in range(n))
        if k == 'asc':
            ty = r.choice(['()', '(^)'])
            if self.acts and r.random() < 0.5: ty = r.choice(['V', 'W'])
            return ('asc', self.expr(d - 1), ty)
        if k == 'act':
            ret = r.choice(['V', 'V', 'W', 'u32']) if r.random() > self.unit_fn else '()'
            n = 'act_%d' % len(self.fns)
            self.fns[n] = (ret, r.randint(0, 3))
            if ret != '()' and r.random() < self.paths: return ('act', self.expr(d - 1), n, False, 'self::')
            return ('act', self.expr(d - 1), n, False)
        return (k, self.expr(d - 1))

    paths = 0

    unit_fn = 0.05

    def grammar(self):
        r = self.rng
        self.fns = {}
        n = r.randint(*self.rules)
        self.names = r.sample(RULE_NAMES, n)
        self.recursive = r.random() < self.rec
        rules = []
        for i, nm in enumerate(self.names):
            self.cur = i
            e = self.expr(self.depth - (r.random() < 0.3))
            rules.append((nm, None if self.values else '(^)', e))
        if r.random() < 0.5: r.shuffle(rules)
        return Gram(rules, self.fns, 'str')

def set_arities(g, ty):
    """Gives each action the arity of its operand; False when uses disagree."""
    need = {}
    for n, t, e in g.rules:
        for x in walk(e):
            if x[0] == 'act' and x[2] in g.fns:
                try:
                    need.setdefault(x[2], set()).add(card(ty.surface(x[1])))
                except peg.IllTyped:
                    pass
                except peg.RustMismatch:
                    return False
    if any(len(s) > 1 for s in need.values()): return False
    g.fns = {f: (ret, min(need[f]) if need.get(f) else ar) for f, (ret, ar) in g.fns.items()}
    return True

def recursive_gram(rng, tries=4000):
    """A well-typed grammar with recursive rules whose types are inferred."""
    for _ in range(tries):
        g = RawGen(rng, rules=(1, 4), depth=rng.choice([2, 3, 3, 4]), values=True, acts=rng.random() < 0.6, rec=1.0, empty=0.02)
        g.unit_fn = 0
        g = g.grammar()
        if g.size() > 45 or not WF(g).ok: continue
        k, ty = peg.typing(g, True)
        if k != 'ok': continue
        if not any(rec for _, rec in ty.components()): continue
        if ty.infinite and rng.random() < 0.5: continue
        if all(unitlike(t) for t in ty.rule_ty.values()) and rng.random() < 0.8: continue
        if not set_arities(g, ty): continue
        g.fns = {f: v for f, v in g.fns.items() if any(x[0] == 'act' and x[2] == f for _, _, e in g.rules for x in walk(e))}
        return g
    return None

def mutate_gram(g, rng, atoms=(('lit', ''), ('lit', 'a'), ('any',))):
    """One random local change of a grammar, anywhere."""
    rules = list(g.rules)
    i = rng.randrange(len(rules))
    n, t, e = rules[i]
    nodes = list(walk(e))
    target = rng.randrange(len(nodes))
    alts = [j for j, x in enumerate(nodes) if x[0] == 'alt']
    if alts and rng.random() < 0.35: target = rng.choice(alts)
    ctr = [0]
    names = [x[0] for x in rules]
    def rewrite(x):
        if x[0] == 'alt' and rng.random() < 0.6:
            # one branch gets a slightly different type
            cs = list(x[1:])
            j = rng.randrange(len(cs))
            b, a = cs[j], rng.choice([('any',), ('cls', 'ab'), ('plus', ('any',)), ('opt', ('any',)), ('lit', 'a')])
            m = rng.randrange(8)
            if m < 2: b = ('seq',) + (b[1:] if b[0] == 'seq' else (b,)) + (a,)
            elif m < 4: b = ('seq', a) + (b[1:] if b[0] == 'seq' else (b,))
            elif m == 4: b = (rng.choice(['opt', 'plus', 'star']), b)
            elif m == 5: b = ('alt', a, b)
            elif b[0] == 'seq' and len(b) > 3: b = ('seq',) + (b[1:-1] if m == 6 else b[2:])
            elif b[0] in ('opt', 'star', 'plus'): b = rng.choice([b[1], ({'opt': 'plus', 'plus': 'opt', 'star': 'opt'}[b[0]], b[1])])
            else: b = ('seq', b, b)
            cs[j] = b
            return ('alt',) + tuple(cs)
        k = rng.randrange(9)
        if k == 0: return ('star', x)
        if k == 1: return ('opt', x)
        if k == 2: return ('plus', x)
        if k == 3: return (rng.choice(['not', 'and']), x)
        if k == 4: return ('alt', x, rng.choice(atoms))
        if k == 5: return ('alt', rng.choice(atoms), x)
        if k == 6: return ('nt', rng.choice(names))
        if k == 7: return ('seq', ('nt', rng.choice(names)), x) if rng.random() < 0.5 else ('seq', x, ('nt', rng.choice(names)))
        return rng.choice(atoms)
    def go(x):
        me = ctr[0]
        ctr[0] += 1
        cs = [go(c) for c in peg.children(x)]
        y = peg.with_children(x, cs)
        return rewrite(y) if me == target else y
    rules[i] = (n, t, go(e))
    return g.copy(rules=rules)
