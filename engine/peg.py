"""Grammars: syntax trees, printing to Oak source, reference typing, reference well-formedness and
reference interpreter. Everything here is written from the documentation of Oak and of PEG, independently of
the code generator: it is the oracle of the checks.

Expressions are tuples:
  ('lit', s) ('any',) ('cls', raw) ('nt', rule) ('ext', path, target)       atoms
  ('seq', e1, .., en) ('alt', e1, .., en)                                   n >= 2
  ('star', e) ('plus', e) ('opt', e) ('not', e) ('and', e)
  ('act', e, function, boxed[, path]) ('asc', e, ty) ('span', e) ('range', e)       ty: '()', '(^)' or a Rust type
"""
import sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ trees
UNARY = ('star', 'plus', 'opt', 'not', 'and', 'act', 'asc', 'span', 'range')

def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x

def children(e):
    k = e[0]
    if k in ('seq', 'alt'):
        return list(e[1:])
    if k in UNARY:
        return [e[1]]
    return []

def with_children(e, cs):
    k = e[0]
    if k in ('seq', 'alt'):
        return (k,) + tuple(cs)
    if k in UNARY:
        return (k, cs[0]) + tuple(e[2:])
    return e

def walk(e):
    yield e
    for c in children(e):
        yield from walk(c)

def size(e):
    return 1 + sum(size(c) for c in children(e))

def map_expr(f, e):
    return f(with_children(e, [map_expr(f, c) for c in children(e)]))

class Gram:
    """rules: list of (name, type or None, expr); fns: {name: (return type, arity)};
    stream: 'str' | 'fuel' | 'vec' | 'file'."""
    def __init__(self, rules, fns=None, stream='str', items=(), extra=None):
        self.rules = [(n, t, tup(e)) for n, t, e in rules]
        self.fns = dict(fns or {})
        self.stream = stream
        self.items = list(items)      # other Rust items (text)
        self.extra = extra or {}

    def expr(self, name):
        """Body of a rule; `r: T = e` is `r = (e):T`."""
        for n, t, e in self.rules:
            if n == name:
                return e if t is None else ('asc', e, t)
        raise KeyError(name)

    def names(self):
        return [n for n, _, _ in self.rules]

    def to_json(self):
        return {'rules': [list(r) for r in self.rules], 'fns': {k: list(v) for k, v in self.fns.items()},
                'stream': self.stream, 'items': self.items, 'extra': self.extra}

    @staticmethod
    def from_json(j):
        return Gram([tuple(r) for r in j['rules']], {k: tuple(v) for k, v in j['fns'].items()},
                    j['stream'], j.get('items', ()), j.get('extra'))

    def copy(self, **kw):
        d = dict(rules=self.rules, fns=self.fns, stream=self.stream, items=self.items, extra=dict(self.extra))
        d.update(kw)
        return Gram(**d)

    def key(self):
        return repr((self.rules, sorted(self.fns.items()), self.stream))

    def size(self):
        return sum(size(e) for _, _, e in self.rules)

# ------------------------------------------------------------------ printing
def rust_str(s):
    o = ['"']
    for c in s:
        if c == '"' or c == '\\':
            o.append('\\' + c)
        elif c == '\n':
            o.append('\\n')
        elif c == '\r':
            o.append('\\r')
        elif c == '\t':
            o.append('\\t')
        elif ' ' <= c <= '~' or (ord(c) > 0xa0 and c.isprintable()):
            o.append(c)
        else:
            o.append('\\u{%x}' % ord(c))
    o.append('"')
    return ''.join(o)

# Precedence levels of the surface syntax.
CHOICE, ACTION, SPAN, SEQ, TYPED, PREFIX, SUFFIX, ATOM = range(8)

def level(e):
    k = e[0]
    if k == 'alt': return CHOICE
    if k == 'act': return ACTION
    if k in ('span', 'range'): return SPAN
    if k == 'seq': return SEQ
    if k == 'asc': return TYPED
    if k in ('not', 'and'): return PREFIX
    if k in ('star', 'plus', 'opt'): return SUFFIX
    return ATOM

def ty_src(ty):
    if ty in ('()', '(^)'):
        return ty
    return '(' + ty + ')'

KEYWORDS = {'type', 'fn', 'match', 'loop', 'while', 'if', 'impl', 'as', 'struct', 'let', 'box', 'dyn', 'async', 'try', 'yield', 'true', 'mod'}

class Printer:
    """Canonical printer: minimal parentheses. Subclasses override the hooks to vary the presentation."""
    def parens(self, e):          # add redundant parentheses around e ?
        return False
    def sp(self):                 # optional white space between tokens
        return ''
    def gap(self):                # mandatory separation
        return ' '
    def lit(self, s):
        return rust_str(s)
    def name(self, n):            # an identifier: rule or function
        return 'r#' + n if n in KEYWORDS else n
    def cls(self, raw):
        return '[' + self.sp() + rust_str(raw) + self.sp() + ']'

    def at(self, e, lvl):
        s = self.expr(e)
        n = 0
        if level(e) < lvl:
            n = 1
        elif self.parens(e):
            n = 1
        for _ in range(n):
            s = '(' + self.sp() + s + self.sp() + ')'
        return s

    def expr(self, e):
        k = e[0]
        if k == 'lit': return self.lit(e[1])
        if k == 'any': return '.'
        if k == 'cls': return self.cls(e[1])
        if k == 'nt': return self.name(e[1])
        if k == 'ext': return e[1]
        if k == 'seq': return self.gap().join(self.at(c, TYPED) for c in e[1:])
        if k == 'alt': return (self.gap() + '/' + self.gap()).join(self.at(c, ACTION) for c in e[1:])
        if k == 'star': return self.at(e[1], ATOM) + self.sp() + '*'
        if k == 'plus': return self.at(e[1], ATOM) + self.sp() + '+'
        if k == 'opt': return self.at(e[1], ATOM) + self.sp() + '?'
        if k == 'not': return '!' + self.sp() + self.at(e[1], SUFFIX)
        if k == 'and': return '&' + self.sp() + self.at(e[1], SUFFIX)
        if k == 'act': return self.at(e[1], SPAN) + self.gap() + '>' + self.gap() + ('box ' if e[3] else '') + ''.join(e[4:]) + self.name(e[2])
        if k == 'asc': return self.at(e[1], PREFIX) + self.sp() + ':' + self.sp() + ty_src(e[2])
        if k == 'span': return '..' + self.gap() + self.at(e[1], SEQ)
        if k == 'range': return '...' + self.gap() + self.at(e[1], SEQ)
        raise ValueError(k)

    def rule(self, r):
        n, t, e = r
        head = self.name(n) + (self.sp() + ':' + self.sp() + ty_src(t) if t else '')
        return head + self.gap() + '=' + self.gap() + self.expr(e)

CANON = Printer()

class RawNames(Printer):
    """Writes some of the identifiers as raw identifiers."""
    def __init__(self, rng):
        self.rng = rng
    def name(self, n):
        return 'r#' + n if n in KEYWORDS or self.rng.random() < 0.4 and '::' not in n and n not in NOT_RAW else n

NOT_RAW = {'self', 'Self', 'super', 'crate', '_'}

def fn_src(name, ret, arity):
    if name.startswith('ext:') or '::' in name:
        return ''
    gs = ', '.join('A%d: support::VShow' % i for i in range(arity))
    ps = ', '.join('a%d: A%d' % (i, i) for i in range(arity))
    args = ', '.join('support::show(&a%d)' % i for i in range(arity))
    return 'fn %s%s%s(%s) -> %s { <%s as support::FromCall>::from_call(support::call("%s", &[%s])) }' % (
        'r#' if name in KEYWORDS else '', name, '<' + gs + '>' if arity else '', ps, ret, ret, name, args)

STREAMS = {
    'str': ('', 'oak_runtime::StrStream', '(&c.input[..]).stream()'),
    'strx': ("type Stream<'a> = StrStream<'a>;", 'oak_runtime::StrStream', '(&c.input[..]).stream()'),
    'fuel': ("type Stream<'a> = support::FuelStream<'a>;", 'support::FuelStream', 'support::FuelStream::new(&c.input)'),
    'gen': ("type Stream<'a, M: support::Marker> = support::GStream<'a, M>;", 'support::GStream::<support::Tag>', 'support::GStream::<support::Tag>::new(&c.input)'),
    'where': ("pub type Stream<'s, M> where M: support::Marker = support::GStream<'s, M>;", 'support::GStream::<support::Tag>', 'support::GStream::<support::Tag>::new(&c.input)'),
    'vec': ("type Stream<'a> = support::VecStream<'a>;", 'support::VecStream', 'support::VecStream::new(&c.input)'),
    'file': ("type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>;", 'oak_runtime::file_map_stream::FileMapStream',
             'support::file_map(&c.input).stream()'),
}

def macro_body(g, printer=CANON, order=None):
    """Text of the macro call. `order`: how to interleave declarations (list of strings given rule/fn/item texts)."""
    decls = []
    s = STREAMS[g.stream][0]
    for it in g.items:
        decls.append(('item', it))
    if s:
        decls.append(('item', s))
    for r in g.rules:
        decls.append(('rule', printer.rule(r)))
    for n in sorted(g.fns):
        f = fn_src(n, *g.fns[n])
        if f:
            decls.append(('fn', f))
    if order:
        decls = order(decls)
    return '\n'.join(d[1] for d in decls)

def first_rule_line(g):
    """Line of the first rule in the text of `module`, from 0."""
    s = STREAMS[g.stream][0]
    return 1 + sum(x.count('\n') + 1 for x in list(g.items) + ([s] if s else []))

def module(name, g, body=None):
    """A module containing the grammar and the dispatcher to its functions (2*i: parser, 2*i+1: recognizer of rule i,
    1000+i: type of rule i)."""
    body = body if body is not None else macro_body(g)
    o = ['mod %s { use support::{self, V, W, En, VShow, Case}; use support::Stream as _; use oak::oak; oak! {' % name, body, '}']
    mk = STREAMS[g.stream][2]
    arms = []
    for i, n in enumerate(g.names()):
        arms.append('%d => support::run1(%s, c.skip, c.again, &|s| support::conv(parse_%s(s))),' % (2 * i, mk, n))
        arms.append('%d => support::run1(%s, c.skip, c.again, &|s| support::conv(recognize_%s(s))),' % (2 * i + 1, mk, n))
        arms.append('%d => support::tn::<%s, _>(parse_%s),' % (1000 + i, STREAMS[g.stream][1], n))
    o.append('pub fn run(c: &Case) -> String { match c.fun { %s _ => String::new() } } }' % ' '.join(arms))
    return '\n'.join(o) + '\n'

# ------------------------------------------------------------------ character classes
class BadClass(Exception):
    pass

def class_intervals(raw):
    """Documented meaning of a class: ranges `x-y` and single characters; `-` at the start or at the end is itself."""
    if raw == '':
        raise BadClass('empty')
    out = []
    i = 0
    n = len(raw)
    if raw[0] == '-':
        out.append(('-', '-'))
        i = 1
    while i < n:
        c = raw[i]
        if c == '-':
            if i == n - 1:
                out.append(('-', '-'))
                i += 1
                continue
            raise BadClass('separator')
        if i + 1 < n and raw[i + 1] == '-':
            if i + 2 == n:
                out.append((c, c))
                out.append(('-', '-'))
                i += 2
            elif raw[i + 2] == '-':
                raise BadClass('separator')
            else:
                out.append((c, raw[i + 2]))
                i += 3
        else:
            out.append((c, c))
            i += 1
    return out

def escape_default(c):
    t = {'\t': '\\t', '\r': '\\r', '\n': '\\n', "'": "\\'", '"': '\\"', '\\': '\\\\'}
    if c in t:
        return t[c]
    if ' ' <= c <= '~':
        return c
    return '\\u{%x}' % ord(c)

def class_display(raw):
    o = []
    for lo, hi in class_intervals(raw):
        o.append(escape_default(lo) if lo == hi else escape_default(lo) + '-' + escape_default(hi))
    return '["' + ''.join(o) + '"]'

# ------------------------------------------------------------------ well-formedness
class WF:
    """Reference well-formedness analysis. Attributes (can_fail, can_succeed, always_consume, never_consume)."""
    all_branches = False
    def __init__(self, g):
        self.g = g
        self.errors = []
        # external rules and the initial hypothesis on rules
        self.table = {n: (True, True, True, False) for n in g.names()}
        for _ in range(200):
            new = {n: self.attr(g.expr(n), None) for n in g.names()}
            if new == self.table:
                break
            self.table = new
        else:
            raise RuntimeError('no fixpoint')
        for n in g.names():
            self.attr(g.expr(n), self.errors)
        self.left_recursion()
        self.ok = not self.errors

    def attr(self, e, errs):
        a = self.attr0(e, errs)
        f, s, ac, nc = a
        if f and not s:
            if errs is not None: errs.append(('never_succeeds', e))
            a = (f, True, ac, nc)
        elif s and not f and nc:
            if errs is not None: errs.append(('always_succeeds_without_consuming', e))
            a = (f, s, ac, False)
        return a

    def attr0(self, e, errs):
        k = e[0]
        if k == 'lit':
            return (True, True, True, False) if e[1] else (False, True, False, False)
        if k in ('any', 'cls', 'ext'):
            return (True, True, True, False)
        if k == 'nt':
            return self.table[e[1]]
        if k in ('act', 'asc', 'span', 'range'):
            return self.attr(e[1], errs)
        if k == 'opt':
            c = self.attr(e[1], errs)
            return (False, True, False, c[3])
        if k in ('star', 'plus'):
            c = self.attr(e[1], errs)
            if c[1] and not c[2]:
                if errs is not None: errs.append(('infinite_repeat', e))
                c = (True, True, True, False)
            return (False, True, False, c[3]) if k == 'star' else c
        if k == 'and':
            c = self.attr(e[1], errs)
            return (c[0], c[1], False, True)
        if k == 'not':
            c = self.attr(e[1], errs)
            return (c[1], c[0], False, True)
        if k == 'seq':
            f, s, ac, nc = False, True, False, True
            for x in e[1:]:
                c = self.attr(x, errs)
                f |= c[0]; s &= c[1]; ac |= c[2]; nc &= c[3]
            return (f, s, ac, nc)
        if k == 'alt':
            f, s, ac, nc = True, False, True, True
            for i, x in enumerate(e[1:]):
                c = self.attr(x, errs)
                f &= c[0]; s |= c[1]; ac &= c[2]; nc &= c[3]
                if i < len(e) - 2 and not c[0]:
                    if errs is not None: errs.append(('unreachable_branch', e))
                    if not self.all_branches: return (f, s, ac, nc)
            return (f, s, ac, nc)
        raise ValueError(k)

    def left_recursion(self):
        edges = {}
        for n in self.g.names():
            out = set()
            self.unguarded(self.g.expr(n), False, out)
            edges[n] = out
        # cycle detection
        color = {}
        def visit(n):
            color[n] = 1
            for m in sorted(edges[n]):
                if color.get(m) == 1 or (m not in color and visit(m)):
                    return True
            color[n] = 2
            return False
        for n in self.g.names():
            if n not in color and visit(n):
                self.errors.append(('left_recursion', ('nt', n)))
                return

    def cyclic(self):
        """The left-recursive rules."""
        edges = {n: set() for n in self.g.names()}
        for n in edges: self.unguarded(self.g.expr(n), False, edges[n])
        out = set()
        for n in edges:
            seen, todo = set(), list(edges[n])
            while todo:
                m = todo.pop()
                if m in seen: continue
                seen.add(m)
                todo += edges[m]
            if n in seen: out.add(n)
        return out

    def unguarded(self, e, consumed, out):
        k = e[0]
        if k == 'nt':
            if not consumed:
                out.add(e[1])
        elif k == 'seq':
            for x in e[1:]:
                self.unguarded(x, consumed, out)
                consumed = consumed or self.attr(x, None)[2]
        else:
            for x in children(e):
                self.unguarded(x, consumed, out)

# ------------------------------------------------------------------ typing
# Types: ('I',) invisible, ('U',) unit, ('C',) char, ('O', t), ('L', t), ('T', t1..tn), ('R', rust), ('E',) external,
# ('X', poly, external) recursive.
I, U, C, E = ('I',), ('U',), ('C',), ('E',)
SPAN_TY, RANGE_TY = ('R', 'Span'), ('R', 'Range<Stream>')

class IllTyped(Exception):
    pass

class Unsupported(Exception):
    """Recursive types outside of the fragment whose typing is documented."""

class RustMismatch(Unsupported):
    """Two different Rust types are unified: that is an error of the Rust compiler, not of Oak."""

def unitlike(t):
    return t == I or t == U

def card(t):
    if unitlike(t): return 0
    if t[0] == 'T': return len(t) - 1
    return 1

def show_ty(t):
    k = t[0]
    if k in 'IU': return '()'
    if k == 'C': return 'char'
    if k == 'O': return 'Option<' + show_ty(t[1]) + '>'
    if k == 'L': return 'Vec<' + show_ty(t[1]) + '>'
    if k == 'T': return '(' + ','.join(show_ty(x) for x in t[1:]) + ')'
    if k == 'R': return t[1].replace(' ', '')
    return '_'

def callable_ty(t):
    """Types which can be returned by a semantic action of the generated grammars."""
    k = t[0]
    if k == 'C': return True
    if k in 'OL': return callable_ty(t[1])
    if k == 'T': return len(t) <= 4 and all(callable_ty(x) for x in t[1:])
    return k == 'R' and t not in (SPAN_TY, RANGE_TY) and 'En' not in t[1]

def box_ty(ty):
    return 'Box<' + ty + '>'

def loosely_equal(a, b, strict=False):
    """Oak cannot compare two Rust types: it leaves that to the Rust compiler."""
    if a[0] == 'R' and b[0] == 'R':
        if strict and a[1].replace(' ', '') != b[1].replace(' ', ''): raise RustMismatch()
        return True
    if a[0] != b[0] or len(a) != len(b):
        return False
    return all(loosely_equal(x, y, strict) if isinstance(x, tuple) else x == y for x, y in zip(a[1:], b[1:]))

class Typing:
    def __init__(self, g, strict=False):
        self.g = g
        self.strict = strict
        self.rule_ty = {}
        self.current = ()            # mutually recursive rules being typed
        self.infinite = []           # components of rules reduced to (^)
        self.deps_cache = {}
        self.miscalled = []          # actions called with a number of arguments that is not theirs
        for comp in self.components():
            self.type_component(comp)
        reduced = {n for c in self.infinite for n in c}
        for n in g.names():
            if n not in reduced: self.depth(g.expr(n), False, None)
            self.no_external(n)

    # -- dependencies between types of rules
    def deps(self, n):
        if n not in self.deps_cache:
            out = set()
            def go(e):
                if e[0] == 'nt': out.add(e[1])
                elif e[0] in ('act', 'asc', 'not', 'and', 'range'): return
                else:
                    for c in children(e): go(c)
            go(self.g.expr(n))
            self.deps_cache[n] = out
        return self.deps_cache[n]

    def components(self):
        """Components of mutually recursive rules, callees first: ([names], recursive?)."""
        reach = {}
        names = self.g.names()
        for n in names:
            seen, todo = set(), list(self.deps(n))
            while todo:
                m = todo.pop()
                if m not in seen:
                    seen.add(m)
                    todo.extend(self.deps(m))
            reach[n] = seen
        done, out = set(), []
        for n in sorted(names, key=lambda n: (len(reach[n]), n not in reach[n])):
            if n in done: continue
            comp = [m for m in names if m == n or (m in reach[n] and n in reach[m])]
            done |= set(comp)
            out.append((comp, n in reach[n]))
        return out

    def type_component(self, comp):
        names, recursive = comp
        if not recursive:
            self.rule_ty[names[0]] = self.surface(self.g.expr(names[0]))
            return
        self.current = names
        tys = [self.surface(self.g.expr(n)) for n in names]
        self.current = ()
        if any(t[0] == 'X' and t[1] for t in tys):
            self.infinite.append(names)
            for n in names: self.rule_ty[n] = I
            return
        # no finite type contains itself: all the rules have the same type, given by their non recursive branches
        # (an external branch in choice with recursive ones only is the last resort)
        known = [E if t[0] == 'X' else t for t in tys if t[0] != 'X' or t[2]]
        value = [t for t in known if t != E and not unitlike(t)]
        if value: hyp = value[0]
        elif E in known: hyp = E
        elif known and all(t == known[0] for t in known): hyp = known[0]
        else: hyp = I
        for n, t in zip(names, tys):
            self.rule_ty[n] = hyp if t[0] == 'X' or t == E or unitlike(hyp) else t
        for n in names:
            t = self.surface(self.g.expr(n))
            if not loosely_equal(t, self.rule_ty[n], self.strict) and not (unitlike(t) and unitlike(self.rule_ty[n])):
                raise IllTyped('recursive rule without a solution')

    def no_external(self, n):
        def has(t):
            return t == E or any(has(x) for x in t[1:] if isinstance(x, tuple))
        if has(self.final_rule_ty(n)):
            raise IllTyped('could not infer the type of ' + n)

    def final_rule_ty(self, n):
        if n not in self.rule_ty:
            raise Unsupported('recursive')
        return self.rule_ty[n]

    def rule(self, n):
        if n in self.rule_ty:
            return self.rule_ty[n]
        assert n in self.current
        return ('X', False, False)

    def action_ty(self, fname, boxed):
        if fname in self.g.fns and '::' not in fname and not fname.startswith('ext'):
            ret = self.g.fns[fname][0]
            if ret == '()':
                raise IllTyped('unit action')
            return ('R', box_ty(ret) if boxed else ret)
        return E

    def surface(self, e):
        k = e[0]
        if k in ('lit', 'not', 'and'):
            return I
        if k in ('any', 'cls'):
            return C
        if k == 'nt':
            return self.rule(e[1])
        if k == 'ext':
            return E
        if k == 'asc':
            return I if e[2] == '(^)' else U if e[2] == '()' else ('R', e[2])
        if k == 'act':
            # the type of an action given by a path is not known
            return E if len(e) > 4 else self.action_ty(e[2], e[3])
        if k in ('star', 'plus', 'opt'):
            t = self.surface(e[1])
            if t == I: return I
            if t[0] == 'X': return ('X', True, t[2])
            return ('O' if k == 'opt' else 'L', t)
        if k == 'span':
            return self.tuple([SPAN_TY, self.surface(e[1])])
        if k == 'range':
            return RANGE_TY
        if k == 'seq':
            return self.tuple([self.surface(c) for c in e[1:]])
        if k == 'alt':
            return self.choice([self.surface(c) for c in e[1:]])
        raise ValueError(k)

    def tuple(self, ts):
        flat = []
        for t in ts:
            if t[0] == 'T': flat.extend(t[1:])
            else: flat.append(t)
        recs = [t for t in flat if t[0] == 'X']
        if recs:
            poly = any(t[1] for t in recs) or any(t[0] in 'COLTRE' for t in flat)
            return ('X', poly, any(t[2] for t in recs))
        flat = [t for t in flat if t != I]
        if not flat: return I
        flat = [t for t in flat if t != U]
        if not flat: return U
        if len(flat) == 1: return flat[0]
        return ('T',) + tuple(flat)

    def choice(self, ts):
        recs = [t for t in ts if t[0] == 'X']
        non = []
        for t in ts:
            if t[0] != 'X' and not any(loosely_equal(t, u, self.strict) for u in non):
                non.append(t)
        if any(t[1] for t in recs):
            raise IllTyped('choice with an infinite type')
        if non == [E] and recs:
            return ('X', False, True)
        if len(non) == 1: return non[0]
        if len(non) == 2 and E in non:
            return non[1] if non[0] == E else non[0]
        if not non:
            return ('X', False, any(t[2] for t in recs))
        if all(unitlike(t) for t in non): return I
        raise IllTyped('branches of different types')

    # -- second pass: ascriptions and actions in the contexts where values are needed
    def depth(self, e, unit, asc):
        if unit:
            self.depth_unit(e)
            return
        t = self.surface(e)
        if unitlike(t) and asc is None:
            self.depth_unit(e)
            return
        if asc is not None and t != E and not loosely_equal(t, asc, self.strict):
            raise IllTyped('ascription')
        k = e[0]
        if k == 'seq' and asc is not None:
            for c in e[1:]:
                self.depth(c, False, None if unitlike(self.surface(c)) else asc)
        elif k == 'asc':
            ty = self.surface(e)
            self.depth(e[1], False, ty)
        elif k in ('act', 'span'):
            if k == 'act' and e[2] in self.g.fns and card(self.surface(e[1])) != self.g.fns[e[2]][1]:
                self.miscalled.append(e[2])
            self.depth(e[1], False, None)
        elif k == 'nt' or k == 'ext':
            pass
        elif k in ('not', 'and', 'range'):
            self.depth_unit(e[1])
        else:
            for c in children(e):
                self.depth(c, False, asc)

    def depth_unit(self, e):
        """Under unit nothing is computed, but actions declared with a unit type are still reported."""
        return

def typing(g, strict=False):
    """-> ('ok', Typing) | ('ill', reason) | ('unsupported', reason)"""
    try:
        return ('ok', Typing(g, strict))
    except RustMismatch:
        return ('unsupported', 'Rust types')
    except IllTyped as x:
        return ('ill', str(x))
    except Unsupported as x:
        return ('unsupported', str(x))

# ------------------------------------------------------------------ interpreter
class TooLong(Exception):
    pass

def h_u32(s):
    a = 7
    for b in s.encode():
        a = (a * 31 + b) % (1 << 32) % 65521
    return a

def from_call(ret, s):
    """Mirror of support::FromCall, on printed values."""
    ret = ret.replace(' ', '')
    if ret == 'V': return s
    if ret == 'W': return 'w' + s
    if ret == 'String': return 's' + s.encode().hex()
    if ret == 'char':
        b = s
        return 'c%x' % ord(b[len(s.encode()) // 2]) if len(s.encode()) // 2 < len(b) else 'c%x' % ord('?')
    if ret == 'u32': return 'u%d' % h_u32(s)
    if ret.startswith('Box<'): return 'B(' + from_call(ret[4:-1], s) + ')'
    if ret.startswith("&'static["): return '&[' + from_call(ret[9:-3], s) + ';]'
    if ret.startswith('['): return '[' + from_call(ret[1:-3], s) + ';' + from_call(ret[1:-3], '') + ';]'
    if ret == 'fn()->u32': return 'fn%d' % (h_u32(s) % 3)
    if ret.startswith('::std::boxed::'): return from_call(ret[14:], s)
    if ret.startswith('(') and ret.endswith(',)'): return '(' + from_call(ret[1:-2], s) + ')'
    if ret.startswith('Vec<'): return '[]' if len(s.encode()) % 2 == 0 else '[' + from_call(ret[4:-1], s) + ';]'
    if ret.startswith('Option<'): return 'N' if len(s.encode()) % 2 == 0 else 'S(' + from_call(ret[7:-1], s) + ')'
    if ret.startswith('('):
        return '(' + ','.join(from_call(a, s) for a in split_tuple(ret)) + ')'
    raise ValueError(ret)

def split_tuple(s):
    """Components of a printed tuple (value or type)."""
    out, d, last = [], 0, 1
    for i, c in enumerate(s):
        if c in '([<': d += 1
        elif c in ')]' or c == '>' and s[i - 1] != '-': d -= 1
        if c == ',' and d == 1 or i == len(s) - 1:
            out.append(s[last:i])
            last = i + 1
    return out

def tuple_show(vs):
    if len(vs) == 0: return '()'
    if len(vs) == 1: return vs[0]
    return '(' + ','.join(vs) + ')'

MAXDEPTH = 400

class Interp:
    """Reference semantics. Positions are character indices; results are given in bytes."""
    def __init__(self, g, ty, others=None):
        self.g = g
        self.ty = ty
        self.others = others or {}          # external rules: path -> (Interp, rule)
        self.bodies = {n: g.expr(n) for n in g.names()}
        self.surf = {}
        self.sets = {}

    def surface(self, e):
        k = id(e)
        r = self.surf.get(k)
        if r is None:
            if self.ty is None:
                t = I
            else:
                t = self.ty.surface(e)
            r = self.surf[k] = (t, e)       # keep e alive: ids stay unique
        return r[0]

    def inclass(self, raw, c):
        s = self.sets.get(raw)
        if s is None:
            s = self.sets[raw] = (class_intervals(raw), class_display(raw))
        for lo, hi in s[0]:
            if lo <= c <= hi:
                return True
        return False

    def err(self, pos, item):
        if pos > self.far:
            self.far = pos
            self.exp = {item}
        elif pos == self.far:
            self.exp.add(item)

    def run(self, rule, text, start=0, value=True, limit=20000):
        self.s = text
        self.n = len(text)
        self.far = start
        self.exp = set()
        self.trace = []
        self.steps = 0
        self.limit = limit
        self.depth = 0
        self.maxdepth = 0
        off = [0]
        for c in text:
            off.append(off[-1] + len(c.encode()))
        self.off = off
        body = self.bodies[rule]
        t = self.surface(body) if self.ty is None else self.ty.rule_ty[rule]
        if value and unitlike(t):
            value = False
        p, vs = self.ev(('nt', rule), start, value)
        return {'start': off[start], 'ok': p >= 0, 'pos': off[p] if p >= 0 else None, 'far': off[self.far], 'exp': sorted(self.exp),
                'val': tuple_show(vs) if p >= 0 else None, 'trace': list(self.trace), 'steps': self.steps,
                'full': p == self.n, 'farc': self.far, 'depth': self.maxdepth}

    def rec(self, e, p):
        return self.ev(e, p, False)[0]

    def ev(self, e, p, val):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        k = e[0]
        if k == 'lit':
            if self.s.startswith(e[1], p):
                return p + len(e[1]), ()
            self.err(p, e[1])
            return -1, ()
        if k == 'any':
            if p < self.n:
                return p + 1, (('c%x' % ord(self.s[p]),) if val else ())
            self.err(p, '<character>')
            return -1, ()
        if k == 'cls':
            if p < self.n and self.inclass(e[1], self.s[p]):
                return p + 1, (('c%x' % ord(self.s[p]),) if val else ())
            self.err(p, class_display(e[1]))
            return -1, ()
        if k == 'seq':
            if val and unitlike(self.surface(e)):
                val = False
            out = ()
            for c in e[1:]:
                p, v = self.ev(c, p, val)
                if p < 0:
                    return -1, ()
                out += v
            return p, out
        if k == 'alt':
            if val and unitlike(self.surface(e)):
                val = False
            for c in e[1:]:
                q, v = self.ev(c, p, val)
                if q >= 0:
                    # the tuple returned by an action given by a path is the value of the choice
                    if val and len(v) == 1 and self.surface(e)[0] == 'T' and self.surface(c) == E: v = tuple(split_tuple(v[0]))
                    return q, v
            return -1, ()
        if k == 'nt':
            self.depth += 1
            if self.depth > self.maxdepth:
                self.maxdepth = self.depth
                if self.depth > MAXDEPTH:
                    raise TooLong()
            body = self.bodies[e[1]]
            if val and unitlike(self.surface_rule(e[1])):
                val = False
            r = self.ev(body, p, val)
            self.depth -= 1
            return r
        if k == 'ext':
            o, rule = self.others[e[1]]
            o.s, o.n, o.far, o.exp, o.trace = self.s, self.n, self.far, self.exp, self.trace
            o.steps, o.limit, o.depth, o.maxdepth, o.off = self.steps, self.limit, self.depth, self.maxdepth, self.off
            r = o.ev(('nt', rule), p, val)
            self.far, self.exp, self.steps, self.maxdepth = o.far, o.exp, o.steps, o.maxdepth
            return r
        if k in ('star', 'plus', 'opt'):
            c = e[1]
            if val and self.surface(e) == I:
                val = False
            items = []
            n = 0
            while True:
                q, v = self.ev(c, p, val)
                if q < 0:
                    break
                p = q
                n += 1
                if val:
                    items.append(tuple_show(v))
                if k == 'opt':
                    break
            if k == 'plus' and n == 0:
                return -1, ()
            if not val:
                return p, ()
            if k == 'opt':
                return p, (('S(' + items[0] + ')') if items else 'N',)
            return p, ('[' + ''.join(x + ';' for x in items) + ']',)
        if k == 'not':
            q, _ = self.ev(e[1], p, False)
            return (-1 if q >= 0 else p), ()
        if k == 'and':
            q, _ = self.ev(e[1], p, False)
            return (p if q >= 0 else -1), ()
        if k == 'asc':
            if e[2] in ('()', '(^)'):
                val = False
            return self.ev(e[1], p, val)
        if k == 'act':
            if not val:
                return self.ev(e[1], p, False)
            q, v = self.ev(e[1], p, not unitlike(self.surface(e[1])))
            if q < 0:
                return -1, ()
            return q, (self.act(e, v),)
        if k == 'span':
            if not val:
                return self.ev(e[1], p, False)
            q, v = self.ev(e[1], p, not unitlike(self.surface(e[1])))
            if q < 0:
                return -1, ()
            return q, ('sp%d-%d' % (self.off[p] + self.span_base, self.off[q] + self.span_base),) + v
        if k == 'range':
            q, _ = self.ev(e[1], p, False)
            if q < 0:
                return -1, ()
            return q, (('rg%d-%d' % (self.off[p], self.off[q]),) if val else ())
        raise ValueError(k)

    span_base = 0

    def surface_rule(self, n):
        return self.ty.rule_ty[n] if self.ty is not None else I

    def act(self, e, v):
        f, boxed = e[2], e[3]
        if f.startswith('En::'):
            k = f[4:]
            k = {'mk': 'K1', 'of': 'A', 'two': 'P'}.get(k, k)       # associated functions
            r = k if not v else '%s(%s)' % (k, ','.join(v))
        else:
            name = f.split('::')[-1]
            call = '%s(%s)' % (name, ','.join(v))
            self.trace.append(call)
            ret = self.g.fns[f][0]
            r = from_call(ret, call)
        return 'B(' + r + ')' if boxed else r
