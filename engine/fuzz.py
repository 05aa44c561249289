"""Token-level fuzzing of the macro (C12)."""
import os, random, re, copy
import peg, gen, build, dyn, core, verdict, syntax
from peg import Gram
from core import Check
from props import register

TOKEN = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<t>b?r#*"(?:.*?)"#*|b?"(?:\\.|[^"\\])*"|b?'(?:\\.[^']*|[^'\\])'|'[A-Za-z_]\w*|[0-9][\w]*(?:\.[0-9]\w*)?|(?:r\#)?[^\W\d]\w*|::|->|=>|&&|\.\.\.|\.\.=|\.\.|==|[()\[\]{}]|.)''', re.S)
CLOSE = {'(': ')', '[': ']', '{': '}'}

def tokens(text):
    return [m.group('t') for m in TOKEN.finditer(text) if m.group('t')]

def trees(toks):
    """Token trees: strings and [open, children]."""
    stack = [['', []]]
    for t in toks:
        if t in '([{' and len(t) == 1: stack.append([t, []])
        elif t in ')]}' and len(t) == 1:
            if len(stack) > 1:
                x = stack.pop()
                stack[-1][1].append(x)
        else: stack[-1][1].append(t)
    while len(stack) > 1:
        x = stack.pop()
        stack[-1][1].append(x)
    return stack[0][1]

HOLE = '\u00a7'       # [HOLE, tokens]: tokens which come from another file than the rest of the call

def text(ts):
    out = []
    for t in ts:
        if isinstance(t, str): out.append(t)
        elif t[0] == HOLE: out.append(text(t[1]))
        else: out.append(t[0] + ' ' + text(t[1]) + ' ' + CLOSE[t[0]])
    # joint punctuation keeps its meaning
    return ' '.join(out)

def spliced(ts, holes):
    """The text of ts with its holes as fragments of a macro_rules; collects them in holes."""
    out = []
    for t in ts:
        if isinstance(t, str): out.append(t)
        elif t[0] == HOLE:
            out.append('$($h%d)*' % len(holes))
            holes.append(text(t[1]))
        else: out.append(t[0] + ' ' + spliced(t[1], holes) + ' ' + CLOSE[t[0]])
    return ' '.join(out)

def has_hole(ts):
    return any(not isinstance(t, str) and (t[0] == HOLE or has_hole(t[1])) for t in ts)

def count(ts):
    return sum(1 if isinstance(t, str) else 1 + count(t[1]) for t in ts)

def depth(ts):
    return 1 + max([depth(t[1]) for t in ts if not isinstance(t, str)] + [0])

PEG_TOKENS = ['"a"', '"bc"', '""', '.', '*', '+', '?', '!', '&', '/', '=', ':', '>', '..', '...', '^', ';', ',', '&&', 'box', 'r', 's', 'x2', 'rule', 'Self', 'self', '_']
RUST_TOKENS = ['fn', 'use', 'type', 'struct', 'enum', 'impl', 'const', 'static', 'mod', 'trait', 'pub', 'let', 'if', 'match', 'for', 'as', 'mut', 'ref', 'where', 'unsafe', 'extern', 'crate',
               'super', 'dyn', 'async', 'await', 'move', 'macro_rules', 'union', 'auto', 'default', 'loop', 'return', 'break', 'static', 'in', 'try', 'yield', 'abstract', 'final', 'true', 'false']
PUNCT = ['->', '=>', '::', '==', '..=', '#', '$', '@', '%', '|', '~', '-', '<', '>', '<<', '+=', '\\'][:-1]
LITS = ["'a'", "'\\n'", '1', '1.5', '0xff', '1u8', 'b"x"', "b'x'", 'r"raw"', 'r#"r"#', '"é\\u{1F600}"', '"\\x41"', '"\\\n  b"', '"a-z"', '"-"', '"--"', '"z-a"', '"a--b"', "'static", "'a", 'true', '1e3', '""', '"\\0"', '"-a"', '"a-"', '"a-b-c"']
IDENTS = ['r', 's', 't', 'Stream', 'V', 'u8', 'str', 'Vec', 'Option', 'Span', 'é', 'r#type', 'parse_r', 'recognize_r', 'state', 'oak', 'Box']
GROUPS = [['(', []], ['[', []], ['{', []], ['(', ['^']], ['[', ['"a"']], ['[', ['"a-"']], ['(', ['"a"', '/', '"b"']], ['[', ['r']], ['[', ["'a'"]], ['{', ['"a"']], ['[', ['"a"', ',', '"b"']], ['(', ['u8', ',', 'u8']]]
PHRASES = ['#![show_typing]', '#![allow(unused)]', '#[inline]', '#![a = "b"]', '#!', '#', '#[derive(Debug)] struct Z;', 'type Stream = u8;', "type Stream<'a> = StrStream<'a>;", "type Stream<'a, T, const N: usize> = StrStream<'a>;",
           'type Stream;', 'fn f() {}', 'fn f(x: u8) -> u8 { x }', 'pub fn', 'use std::fmt;', 'r = "a"', 'r = "a" > f', 'r = "a" > box f', 'r: u8 = "a"', 'r:(^) = .', 'r:() = "a"*', 'r: Vec<u8> = .',
           'r = .. r', 'r = ... "a"', 'r = s / s', 'r = ! & "a"', 'r = & & "a"', 'r = super :: f', 'r = self :: f : u8', 'r = :: a :: b', 'r = "a" > |x| x', 'r = "a" > (f)', 'r = "a" > a :: b', 'r = "a" > f > g',
           '"a" : Option < u8 >', '> f ( x )', '> { f }', ': ( u8 )', ': [ u8 ; 3 ]', ': & str', ": & 'a str", ': impl T', ': dyn T', ': fn ( ) -> u8', ': !', ': _', ': ( ^ , u8 )', ': ( ( ^ ) )', ': Self', ': macro ! ( )',
           'macro_rules! m { () => {} }', 'impl V { }', 'const X: u8 = 1;', 'let x = 1;', 'r == "a"', 'r => "a"', 'r -> "a"', 'r ::= "a"', 'r <- "a"', 'Self = "a"', 'self = "a"', '_ = "a"', 'fn = "a"', 'r#fn = "a"', 'box = "a"', 'r = box',
           'r = "a" s', '..', 'r = .', 'r = ', '= "a"', 'r', 'r :', 'r : u8', 'r : u8 =', 'extern crate core;', 'r = "a" , s = "b"', 'r = "a" ; s = "b" ;', 'r = [ "a" ] [ "b" ]', 'r = "a" { 3 }', 'r = ( ) ', 'r = ( ( ) )', 'r = ( "a" ) ( )']

class TreeFuzz:
    def __init__(self, rng):
        self.rng = rng

    def tok(self):
        r = self.rng
        k = r.random()
        if k < 0.45: return r.choice(PEG_TOKENS)
        if k < 0.6: return self.literal() if r.random() < 0.2 else r.choice(LITS)
        if k < 0.72: return r.choice(IDENTS)
        if k < 0.8: return r.choice(RUST_TOKENS)
        if k < 0.86: return r.choice(PUNCT)
        return copy.deepcopy(r.choice(GROUPS))

    def literal(self):
        """A random string, with characters of all lengths and escapes."""
        r = self.rng
        n = r.choice([1, 2, 3, 5, 8, 13, 20, 40, 80, 200])
        chars = r.choice(['abc', 'aé', 'éλж', 'ab-z', '中文é', 'a\U0001F600', 'a-é-中\U0001F600 ', 'aAzZ09-_\\"\n\t\r\0\'\x01\u0301\u200d\ufeff\u00a0éλ中\U0001F600'])
        t = ''.join(r.choice(chars) for _ in range(n))
        out = '"' + ''.join('\\u{%x}' % ord(c) if ord(c) < 32 or c in '\u0301\u200d\ufeff' else '\\' + c if c in '\\"' else c for c in t) + '"'
        return ['[', [out]] if r.random() < 0.5 else out

    def put_literal(self, ts):
        """Replaces one literal."""
        places = [(l, i) for l in self.lists(ts) for i, t in enumerate(l) if isinstance(t, str) and t[0] == '"']
        if not places: return
        l, i = self.rng.choice(places)
        x = self.literal()
        l[i] = x if isinstance(x, str) else x[1][0]

    def piece(self):
        r = self.rng
        if r.random() < 0.3: return trees(tokens(r.choice(PHRASES)))
        return [self.tok()]

    def soup(self, d=3):
        r = self.rng
        out = []
        for _ in range(r.randint(0, 8)):
            if d > 0 and r.random() < 0.2: out.append([r.choice('([{('), self.soup(d - 1)])
            else: out += self.piece()
        return out

    def base(self):
        r = self.rng
        k = r.random()
        if k < 0.35:
            g = gen.Gen(r, gen.Opts(rules=(1, 3), maxsize=25, depth=3, streams=[('str', 3), ('strx', 1), ('where', 0.5)])).grammar()
            p = syntax.Varied(r, 0.5) if r.random() < 0.4 else peg.CANON
            ts = trees(tokens(peg.macro_body(g, p)))
            if r.random() < 0.15: self.put_literal(ts)
            return ts
        if k < 0.6:
            g = gen.RawGen(r, rules=(1, 3), depth=3, values=r.random() < 0.6, acts=r.random() < 0.6).grammar()
            return trees(tokens(peg.macro_body(g)))
        if k < 0.75: return self.soup()
        out = []
        for _ in range(r.randint(1, 4)): out += trees(tokens(r.choice(PHRASES)))
        return out

    def lists(self, ts):
        """All the sequences of token trees inside ts."""
        out = [ts]
        for t in ts:
            if not isinstance(t, str): out += self.lists(t[1])
        return out

    def mutate(self, ts, donor):
        r = self.rng
        ls = self.lists(ts)
        l = gen.pick(r, [(1 + len(x), x) for x in ls])
        k = r.randrange(11)
        i = r.randint(0, len(l))
        if k == 0 and l: del l[min(i, len(l) - 1)]
        elif k == 1 and l: l.insert(i, copy.deepcopy(r.choice(l)))
        elif k == 2 and len(l) > 1:
            j = r.randrange(len(l))
            i = min(i, len(l) - 1)
            l[i], l[j] = l[j], l[i]
        elif k == 3 and l: l[min(i, len(l) - 1)] = self.tok()
        elif k == 4: l[i:i] = self.piece()
        elif k == 5 and l:
            # cut
            j = r.randint(i, min(len(l), i + 6))
            del l[i:j]
        elif k == 6:
            m = r.choice(self.lists(donor))
            a = r.randint(0, len(m))
            l[i:i] = copy.deepcopy(m[a:a + r.randint(1, 5)])
        elif k == 7 and l:
            # wrap
            j = r.randint(i, min(len(l), i + 5))
            l[i:j] = [[r.choice('((([{'), l[i:j]]]
        elif k == 8:
            # unwrap
            gs = [q for q, t in enumerate(l) if not isinstance(t, str)]
            if gs:
                q = r.choice(gs)
                l[q:q + 1] = l[q][1]
        elif k == 9:
            gs = [q for q, t in enumerate(l) if not isinstance(t, str)]
            if gs:
                q = r.choice(gs)
                l[q] = [r.choice('([{'), l[q][1]]
        elif k == 10 and l: del l[i:]

    def deep(self):
        """Deeply nested expressions."""
        r = self.rng
        n = r.randint(10, 60)
        x = ['"a"']
        for _ in range(n):
            k = r.randrange(6)
            if k == 0: x = [['(', x]]
            elif k == 1: x = [['(', ['!'] + x]]
            elif k == 2: x = [['(', x + ['/', '"b"']]]
            elif k == 3: x = [['(', x + ['"c"']]]
            elif k == 4: x = [['(', x], r.choice('?')]
            else: x = [['(', ['"d"'] + x]]
        return ['r', '=', *x]

    def punch(self, ts):
        """Makes holes in ts, at most one level deep."""
        r = self.rng
        out = []
        i = 0
        while i < len(ts):
            if r.random() < 0.2:
                j = min(len(ts), i + r.choice([1, 1, 1, 2, 3, 6, 15]))
                out.append([HOLE, ts[i:j]])
                i = j
                continue
            t = ts[i]
            out.append(t if isinstance(t, str) else [t[0], self.punch(t[1])])
            i += 1
        return out

    def make(self):
        r = self.rng
        if r.random() < 0.04: return self.deep()
        ts = self.base()
        donor = self.base()
        for _ in range(gen.pick(r, [(1, 0), (4, 1), (3, 2), (2, 3), (1, 6)])): self.mutate(ts, donor)
        return ts

@register
class C12(Check):
    id = 'C12'
    technique = 'fuzzing: grammar-based and mutational fuzzing of the token sequences given to the macro, with the verdict of rustc as oracle'
    rule = 'Token trees, a quarter of them also given through a macro_rules of another file: printed grammars mutated (delete, duplicate, swap, insert, splice, wrap, unwrap, truncate), token soups and deep nestings. Non-trivial: at least 4 tokens and rejected, or accepted after a mutation.'
    quick = (128, 200)
    thorough = (600, 150)
    min_nontrivial = 1000
    def make_item(self, rng, k, tier):
        for _ in range(50):
            f = TreeFuzz(rng)
            ts = f.make()
            if rng.random() < 0.25 and not any(x in ('$', '#') for x in tokens(text(ts))): ts = f.punch(ts)
            if count(ts) <= 400 and depth(ts) <= 70: return {'ts': ts}

    def wrap(self, i, ts):
        return 'mod m%d { use support::{self, V, W, En, VShow}; use support::Stream as _; use oak::oak; oak! {\n%s\n} }' % (i, text(ts))

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        mods = [self.wrap(i, it['ts']) for i, it in enumerate(items)]
        # tokens from two files: the frame of the call is a macro_rules of the file ext.rs
        ext, other = [], {}
        for i, it in enumerate(items):
            if not has_hole(it['ts']): continue
            holes = []
            frame = spliced(it['ts'], holes)
            ext.append('macro_rules! frame%d {\n  (%s) => { oak::oak! {\n%s\n} }\n}' % (i, ' '.join('[$($h%d:tt)*]' % k for k in range(len(holes))), frame))
            other[i] = len(mods)
            mods.append('mod x%d { use support::{self, V, W, En, VShow}; use support::Stream as _; frame%d! {\n%s\n} }' % (i, i, '\n'.join('[ %s ]' % h for h in holes)))
        with open(os.path.join(workdir, 'ext.rs'), 'w') as f: f.write('\n'.join(ext) + '\n')
        b = build.Batch(art, workdir, mods, metadata=True, main=False, prelude='#[macro_use] #[path = "ext.rs"] mod ext;').compile()
        out = []
        for i, it in enumerate(items):
            v = verdict.classify(b.errors[i])
            if stats is not None:
                stats.evaluations += 1
                stats.add(v[0])
                if v[0] == 'rejected': stats.add('message: ' + re.sub(r'`[^`]*`|[0-9]+', '_', v[1].split('\n')[0])[:50])
                if count(it['ts']) >= 4: stats.nontrivial(text(it['ts']))
                if v[0] == 'rejected': stats.sample({'tokens': text(it['ts'])[:200], 'message': v[1][:120]}, 2)
            m = None
            if v[0] == 'panic': m = 'panic: the macro panics without any message in the call: %s' % v[1]
            elif v[0] == 'crash': m = 'crash: the macro crashes the compiler: %s' % v[1]
            elif v[0] == 'rust' and pure(it['ts']) and not all(d.text.startswith('cannot find function `') or 'aborting' in d.text for d in b.errors[i]): m = 'rust: the macro accepts this input but its expansion is not valid: %s' % v[1]
            elif v[0] == 'rejected':
                e = b.errors[i]
                if not any(inside(d, mods[i]) for d in e): m = 'location: no message points into the call: %s' % dyn.diag_text(e)
            if m is None and i in other:
                j = other[i]
                w = verdict.classify(b.errors[j])
                if stats is not None:
                    stats.evaluations += 1
                    stats.add('two files: ' + w[0])
                if w[0] == 'panic': m = 'files-panic: the macro panics without any message in the call: %s' % w[1]
                elif w[0] == 'crash': m = 'files-crash: the macro crashes the compiler: %s' % w[1]
                elif (w[0] == 'rejected') != (v[0] == 'rejected') and 'hang' not in (v[0], w[0]):
                    m = 'files-verdict: the call is %s (%s), and %s (%s) when its tokens come from two files' % (v[0], v[1], w[0], w[1])
                elif w[0] == 'rejected' and not any(inside(d, mods[j]) for d in b.errors[j]): m = 'files-location: no message points into the call: %s' % dyn.diag_text(b.errors[j])
            out.append(m)
        return out

    def shrinks(self, item, msg):
        ts = item['ts']
        ls = list(paths(ts, ()))
        for p in sorted(ls, key=len):
            l = at(ts, p)
            n = len(l)
            for w in (n, n // 2, n // 4, 2, 1):
                if w < 1: continue
                for i in range(0, n - w + 1, max(1, w)):
                    yield {'ts': put(ts, p, l[:i] + l[i + w:])}
            for i, t in enumerate(l):
                if not isinstance(t, str): yield {'ts': put(ts, p, l[:i] + t[1] + l[i + 1:])}
                elif t != '"a"': yield {'ts': put(ts, p, l[:i] + ['"a"'] + l[i + 1:])}

    def cost(self, item):
        return 10 * count(item['ts']) + len(text(item['ts']))

    def describe(self, item):
        s = '  oak! { %s }' % text(item['ts'])
        if has_hole(item['ts']):
            holes = []
            s += '\n  written as a macro_rules of another file: oak! { %s }\n' % spliced(item['ts'], holes)
            s += '\n'.join('    $h%d: %s' % (k, h) for k, h in enumerate(holes))
        return s

def paths(ts, p):
    yield p
    for i, t in enumerate(ts):
        if not isinstance(t, str): yield from paths(t[1], p + (i,))

def at(ts, p):
    for i in p: ts = ts[i][1]
    return ts

def put(ts, p, new):
    if not p: return new
    i = p[0]
    return ts[:i] + [[ts[i][0], put(ts[i][1], p[1:], new)]] + ts[i + 1:]

def pure(ts):
    """Only rules, without types, actions nor paths: the user wrote no Rust."""
    flat = tokens(text(ts))
    if any(t in ('>', ':', '::', '#', '$') or t in RUST_TOKENS or t in PUNCT for t in flat): return False
    return True

def inside(d, mod):
    n = mod.count('\n') + 1
    for pr, l0, c0, l1, c1, fn in d.lines:
        if pr and d.base <= l0 and l1 <= d.base + n - 1: return True
    return False
