"""C24: realistic languages. Trees are printed with random spacing, parsed by the generated parsers and compared; damaged
texts are compared with parsers written by hand."""
import json, os, re
import build, core
from core import Check
from props import register
from dyn import diag_text, shrink_text

class Fail(Exception):
    pass

class Hand:
    """Primitives of the parsers written by hand: position, farthest failure."""
    def __init__(self, s, params):
        self.s, self.i, self.far, self.p = s, 0, 0, params
    def fail(self):
        self.far = max(self.far, self.i)
        raise Fail()
    def lit(self, t):
        if not self.s.startswith(t, self.i): self.fail()
        self.i += len(t)
        return t
    def one(self, f):
        if self.i < len(self.s) and f(self.s[self.i]):
            self.i += 1
            return self.s[self.i - 1]
        self.fail()
    def opt(self, f, *a):
        k = self.i
        try:
            return (f(*a),)
        except Fail:
            self.i = k
            return None
    def many(self, f, *a):
        out = []
        while True:
            r = self.opt(f, *a)
            if r is None: return out
            out.append(r[0])
    def some(self, f, *a):
        return [f(*a)] + self.many(f, *a)
    def no(self, f, *a):
        k = self.i
        r = self.opt(f, *a)
        self.i = k
        if r is not None: raise Fail()
    def first(self, *fs):
        for f in fs:
            r = self.opt(f)
            if r is not None: return r[0]
        raise Fail()
    def run(self):
        v = self.opt(self.program)
        b = lambda k: len(self.s[:k].encode())
        if v is None: return (False, None, b(self.far), None)
        return (True, b(self.i), b(self.far), v[0])

def digit(c): return '0' <= c <= '9'
def alpha(c): return 'a' <= c <= 'z' or 'A' <= c <= 'Z' or c == '_'
def word(c): return digit(c) or alpha(c)
def blank(c): return c in ' \n\r\t'
def hexs(s): return s.encode().hex()

class Out:
    """Tokens and marks; rendered with random spacing. Offsets (in bytes) are known after the rendering: see resolve."""
    def __init__(self, rng, comment='', wordy=lambda c: word(c) or c == 'é'):
        self.rng, self.items, self.comment, self.wordy = rng, [], comment, wordy
        self.wide = rng.choice([0, 0.1, 0.5])
        self.marks = {}
    def put(self, s): self.items.append(('raw', s))
    def tok(self, s): self.items.append(('tok', s))
    def space(self): self.items.append(('tok', ''))
    def mark(self):
        """The offset of what follows; to be resolved."""
        k = len(self.marks)
        self.marks[k] = None
        self.items.append(('mark', k))
        return '\x01%d\x02' % k
    def blank(self, must):
        r = self.rng
        s = ''
        if r.random() < self.wide or must: s = ''.join(r.choice('    \n\t\r') for _ in range(r.choice([1, 1, 1, 2, 3])))
        if self.comment and r.random() < 0.03: s += ' ' + self.comment + ''.join(r.choice('ab (/"#\'é') for _ in range(r.randint(0, 4))) + '\n'
        return s
    def render(self):
        out, n = [], 0
        its = self.items
        for i, (k, x) in enumerate(its):
            if k == 'mark':
                self.marks[x] = n
                continue
            if k == 'tok':
                nxt = next((y for kk, y in its[i + 1:] if kk != 'mark'), '')
                x += self.blank(bool(x and nxt and self.wordy(x[-1]) and self.wordy(nxt[0])))
            out.append(x)
            n += len(x.encode())
        return ''.join(out)
    def resolve(self, v):
        if isinstance(v, str): return re.sub('\x01(\\d+)\x02', lambda m: str(self.marks[int(m.group(1))]), v)
        return [self.resolve(x) for x in v]

# ------------------------------------------------------------------ the calculator of the book
CALC = r'''
  type Stream<'a> = StrStream<'a>;
  program = spacing expression
  expression
    = term (term_op term)* > fold_left
  term
    = exponent (factor_op exponent)* > fold_left
  exponent
    = (factor exponent_op)* factor > fold_right
  factor: PExpr
    = number > box Number
    / identifier > box Variable
    / let_expr > box LetIn
    / lparen expression rparen
  let_expr = let_kw let_binding in_kw expression
  let_binding = identifier bind_op expression
  term_op: BinOp
    = add_op > Add
    / sub_op > Sub
  factor_op: BinOp
    = mul_op > Mul
    / div_op > Div
  exponent_op: BinOp = exp_op > Exp
  identifier = !digit !keyword ident_char+ spacing > to_string
  ident_char = ["a-zA-Z0-9_"]
  digit = ["0-9"]
  number = digit+ spacing > to_number
  spacing = [" \n\r\t"]*:(^)
  kw_tail = !ident_char spacing
  keyword = let_kw / in_kw
  let_kw = "let" kw_tail
  in_kw = "in" kw_tail
  bind_op = "=" spacing
  add_op = "+" spacing
  sub_op = "-" spacing
  mul_op = "*" spacing
  div_op = "/" spacing
  exp_op = "^" spacing
  lparen = "(" spacing
  rparen = ")" spacing
  fn to_number(raw_text: Vec<char>) -> u32 {
    u32::from_str(&*to_string(raw_text)).unwrap()
  }
  fn to_string(raw_text: Vec<char>) -> String {
    raw_text.into_iter().collect()
  }
  fn fold_left(head: PExpr, rest: Vec<(BinOp, PExpr)>) -> PExpr {
    rest.into_iter().fold(head,
      |accu, (op, expr)| Box::new(BinaryExpr(op, accu, expr)))
  }
  fn fold_right(front: Vec<(PExpr, BinOp)>, last: PExpr) -> PExpr {
    front.into_iter().rev().fold(last,
      |accu, (expr, op)| Box::new(BinaryExpr(op, expr, accu)))
  }
'''
# the variant of tests/grammars/calc.rs: functions instead of variants, no annotation
CALC2 = re.sub(r'factor: PExpr\n    = number > box Number\n    / identifier > box Variable\n    / let_expr > box LetIn',
               'factor\n    = number > number_expr\n    / identifier > variable_expr\n    / let_expr > let_in_expr', CALC)
for a, b in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Exp', 'exp')):
    CALC2 = CALC2.replace('%s_op > %s' % (b, a), '%s_op > %s_bin_op' % (b, b))
CALC2 = re.sub(r'_op: BinOp', '_op', CALC2) + r'''
  fn number_expr(value: u32) -> PExpr { Box::new(Number(value)) }
  fn variable_expr(ident: String) -> PExpr { Box::new(Variable(ident)) }
  fn let_in_expr(var: String, value: PExpr, expr: PExpr) -> PExpr { Box::new(LetIn(var, value, expr)) }
  fn add_bin_op() -> BinOp { Add }
  fn sub_bin_op() -> BinOp { Sub }
  fn mul_bin_op() -> BinOp { Mul }
  fn div_bin_op() -> BinOp { Div }
  fn exp_bin_op() -> BinOp { Exp }
'''
CALC_RUST = r'''
  use std::str::FromStr;
  use self::Expression::*;
  use self::BinOp::*;
  pub type PExpr = Box<Expression>;
  #[derive(Debug)]
  pub enum Expression { Variable(String), Number(u32), BinaryExpr(BinOp, PExpr, PExpr), LetIn(String, PExpr, PExpr) }
  #[derive(Debug)]
  pub enum BinOp { Add, Sub, Mul, Div, Exp }
  impl VShow for Expression {
    fn show(&self, o: &mut String) {
      match self {
        Variable(s) => o.push_str(&s), Number(n) => o.push_str(&n.to_string()),
        BinaryExpr(op, a, b) => { o.push_str(match op { Add => "(+ ", Sub => "(- ", Mul => "(* ", Div => "(/ ", Exp => "(^ " }); (**a).show(o); o.push(' '); (**b).show(o); o.push(')') }
        LetIn(x, a, b) => { o.push_str("(let "); o.push_str(x); o.push(' '); (**a).show(o); o.push(' '); (**b).show(o); o.push(')') }
      }
    }
    fn tname(o: &mut String) { o.push_str("Expression") }
  }
'''
class Calc:
    name = 'calc'
    expdepth = 7
    def params(self, rng):
        return {'fn': rng.random() < 0.5, 'inside': rng.random() < 0.5}
    def body(self, p):
        return (CALC2 if p['fn'] else CALC) + (CALC_RUST if p['inside'] else '')
    def rust(self, p):
        return '' if p['inside'] else CALC_RUST
    def shown(self, v):       # what the support crate prints
        return 'B(' + v + ')'
    def tree(self, rng, p, d):
        k = rng.random()
        if d <= 0 or k < 0.15:
            if rng.random() < 0.5: return ('num', str(rng.choice([0, 1, 7, 42, rng.randint(0, 99999), 4294967295])))
            return ('id', rng.choice(['a', 'b', 'x', 'lets', 'inn', 'le', 'i', 'x1', '_', 'in_', 'let2', 'A9']))
        if k < 0.27: return ('let', rng.choice(['x', 'y', 'lett', 'i1']), self.tree(rng, p, d - 1), self.tree(rng, p, d - 1))
        return ('bin', rng.choice('+-*/^'), self.tree(rng, p, d - rng.choice([1, 1, 2])), self.tree(rng, p, d - rng.choice([1, 1, 2])))
    LV = {'+': 0, '-': 0, '*': 1, '/': 1, '^': 2}
    def emit(self, t, o, lv=0, tail=True):
        if t[0] in ('num', 'id'):
            o.tok(t[1])
            return t[1]
        if (t[0] == 'bin' and self.LV[t[1]] < lv) or (t[0] == 'let' and not tail) or o.rng.random() < 0.02:
            o.tok('(')
            r = self.emit(t, o)
            o.tok(')')
            return r
        if t[0] == 'let':
            o.tok('let')
            o.tok(t[1])
            o.tok('=')
            a = self.emit(t[2], o)
            o.tok('in')
            return '(let %s %s %s)' % (t[1], a, self.emit(t[3], o, 0, tail))
        n = self.LV[t[1]]
        a = self.emit(t[2], o, n + (t[1] == '^'), False)
        o.tok(t[1])
        return '(%s %s %s)' % (t[1], a, self.emit(t[3], o, n + (t[1] != '^'), tail))
    def print(self, t, o, p):
        o.space()
        return self.emit(t, o)
    alphabet = '+-*/^()= \n1a_letin0'
    class Parser(Hand):
        def ws(self): self.many(self.one, blank)
        def sym(self, t):
            self.lit(t)
            self.ws()
            return t
        def kw(self, t):
            self.lit(t)
            self.no(self.one, word)
            self.ws()
        def program(self):
            self.ws()
            return self.expr()
        def expr(self): return self.left(self.term, '+-')
        def term(self): return self.left(self.expo, '*/')
        def left(self, sub, ops):
            a = sub()
            for op, b in self.many(lambda: (self.first(*[lambda c=c: self.sym(c) for c in ops]), sub())): a = '(%s %s %s)' % (op, a, b)
            return a
        def expo(self):
            """Operands separated by `^`, grouped to the right. An operator read is never given back."""
            xs = [self.factor()]
            while self.opt(self.sym, '^') is not None: xs.append(self.factor())
            a = xs.pop()
            while xs: a = '(^ %s %s)' % (xs.pop(), a)
            return a
        def number(self):
            s = ''.join(self.some(self.one, digit))
            self.ws()
            if int(s) > 0xffffffff: raise Overflow()
            return str(int(s))
        def keyword(self): self.first(lambda: self.kw('let'), lambda: self.kw('in'))
        def ident(self):
            self.no(self.one, digit)
            self.no(self.keyword)
            s = ''.join(self.some(self.one, word))
            self.ws()
            return s
        def let(self):
            self.kw('let')
            x = self.ident()
            self.sym('=')
            a = self.expr()
            self.kw('in')
            return '(let %s %s %s)' % (x, a, self.expr())
        def paren(self):
            self.sym('(')
            a = self.expr()
            self.sym(')')
            return a
        def factor(self): return self.first(self.number, self.ident, self.let, self.paren)

class Overflow(Exception):
    pass

# ------------------------------------------------------------------ expression languages
BINOPS = ['+', '-', '*', '/', '%', '^', '==', '!=', '<=', '>=', '<', '>', '&&', '||', '|', '&', '::', '@', '.', '++', '<<', 'and', 'or', 'mod', 'is']
UNOPS = ['!', '-', '~', 'not', '$']
class Expr:
    """Languages of expressions with random operators, levels, associativities, spacing and presentation."""
    name = 'expr'
    def params(self, rng):
        frac = rng.random() < 0.4
        ops = [o for o in BINOPS if not (frac and o == '.')]
        rng.shuffle(ops)
        comment = rng.choice(['', '', '//', '#'])
        nl = rng.choice([1, 2, 2, 3, 3, 4, 5])
        levels = []
        double = False
        for _ in range(nl):
            mine = [ops.pop() for _ in range(min(len(ops), rng.choice([1, 2, 2, 3, 4])))]
            mine.sort(key=lambda s: (-len(s), rng.random()))
            assoc = rng.choice(['l', 'l', 'l', 'r', 'R', 'n'])
            if assoc == 'R':
                if double: assoc = 'r'
                double = True
            if assoc == 'R' and any(o.startswith(x) for x in mine for _, l in levels for o in l):
                # an operator read by (e op)* is never given back to the looser levels
                assoc, double = 'l', False
            levels.append([assoc, mine])
        un = [u for u in UNOPS if rng.random() < 0.35]
        return {'levels': levels, 'un': un, 'comment': comment, 'call': rng.random() < 0.5, 'let': rng.random() < 0.5, 'if': rng.random() < 0.4,
                'str': rng.random() < 0.4, 'span': rng.random() < 0.5, 'variants': rng.random() < 0.5, 'eof': rng.random() < 0.4,
                'frac': frac, 'stream': rng.choice(['', "type Stream<'a> = StrStream<'a>;"]), 'order': rng.randint(0, 10 ** 6),
                'alpha': rng.random() < 0.3, 'split': rng.random() < 0.5}
    def words(self, p):
        w = [o for l in p['levels'] for o in l[1] if word(o[0])] + [u for u in p['un'] if word(u[0])]
        return w + (['let', 'in'] if p['let'] else []) + (['if', 'then', 'else'] if p['if'] else [])
    def body(self, p):
        import random
        rng = random.Random(p['order'])
        R, F = [], []
        def tok(name, t):
            if word(t[0]): R.append('%s = "%s" kw_tail' % (name, t))
            else: R.append('%s = "%s" spacing' % (name, t))
        R.append('program = spacing l0' + (rng.choice([' !.', ' eof']) if p['eof'] else ''))
        R.append('eof = !.')
        nl = len(p['levels'])
        for i, (assoc, ops) in enumerate(p['levels']):
            nxt = 'l%d' % (i + 1) if i + 1 < nl else 'una'
            if assoc == 'l': R.append('l%d = %s (bop%d %s)* > fold_left' % (i, nxt, i, nxt))
            elif assoc == 'R': R.append('l%d = (%s bop%d)* %s > fold_right' % (i, nxt, i, nxt))
            elif assoc == 'r': R.append('l%d = %s (bop%d l%d)? > fold_opt' % (i, nxt, i, i))
            else: R.append('l%d = %s (bop%d %s)? > fold_opt' % (i, nxt, i, nxt))
            alts = []
            for j, o in enumerate(ops):
                tok('o%d_%d' % (i, j), o)
                alts.append('o%d_%d > %s%d_%d' % (i, j, 'O' if p['variants'] else 'mk', i, j))
                if not p['variants']: F.append('fn mk%d_%d() -> Op { O%d_%d }' % (i, j, i, j))
            R.append('bop%d%s = %s' % (i, ': Op' if p['variants'] else '', ' / '.join(alts)))
        if p['un']:
            R.append('una: V = uop una > un / post')
            R.append('uop = %s' % ' / '.join('u%d > mku%d' % (j, j) for j in range(len(p['un']))))
            for j, u in enumerate(p['un']):
                tok('u%d' % j, u)
                F.append('fn mku%d() -> &\'static str { "%s" }' % (j, u))
            F.append("fn un(op: &'static str, a: V) -> V { V(format!(\"(u{} {})\", op, a.0)) }")
        else: R.append('una = post')
        if p['call']:
            R.append('post = prim call* > fold_calls')
            R.append('call = lparen args? rparen')
            R.append('args = l0 (comma l0)* > cons')
            F.append('fn cons(h: V, t: Vec<V>) -> Vec<V> { let mut v = vec![h]; v.extend(t); v }')
            F.append('fn fold_calls(h: V, cs: Vec<Option<Vec<V>>>) -> V { cs.into_iter().fold(h, |f, a| V(format!("(call {} [{}])", f.0, a.map(|a| a.into_iter().map(|x| x.0).collect::<Vec<_>>().join(" ")).unwrap_or_default()))) }')
            tok('comma', ',')
        else: R.append('post = prim')
        if p['span']:
            R.append('prim: V = .. prim0 > at')
            F.append('fn at(s: Span, v: V) -> V { V(format!("{}@{}-{}", v.0, s.lo.0, s.hi.0)) }')
        P = 'prim0' if p['span'] else 'prim'
        alts = ['number > num']
        if p['str']:
            alts.append('string > st')
            R.append('string = "\\"" (escape / [" a-zA-Z0-9é日"] > same)* "\\"" spacing > text')
            R.append('escape = "\\\\" (newline / ["\\"\\\\"] > same)')
            F.append('fn same(c: char) -> char { c }')
            R.append("newline = \"n\" > nl")
            F.append("fn nl() -> char { '\\n' }")
            F.append('fn st(s: String) -> V { V(format!("\'{}\'", support::hex(&s))) }')
        if p['let']:
            alts.append('let_kw ident eq l0 in_kw l0 > mk_let')
            tok('let_kw', 'let'); tok('in_kw', 'in'); tok('eq', '=')
            F.append('fn mk_let(x: String, a: V, b: V) -> V { V(format!("(let {} {} {})", x, a.0, b.0)) }')
        if p['if']:
            alts.append('if_kw l0 then_kw l0 else_clause? > mk_if')
            tok('if_kw', 'if'); tok('then_kw', 'then'); tok('else_kw', 'else')
            R.append('else_clause = else_kw l0')
            F.append('fn mk_if(c: V, a: V, b: Option<V>) -> V { V(format!("(if {} {}{})", c.0, a.0, b.map(|b| format!(" {}", b.0)).unwrap_or_default())) }')
        alts += ['ident > var', 'lparen l0 rparen']
        R.append('%s: V = %s' % (P, ' / '.join(alts)))
        tok('lparen', '('); tok('rparen', ')')
        ws = self.words(p)
        if ws:
            R.append('keyword = (%s) !ident_char' % ' / '.join('"%s"' % w for w in sorted(ws, key=lambda w: (-len(w), w))) if len(ws) > 1 else 'keyword = "%s" !ident_char' % ws[0])
        R.append('ident = %sident_start ident_char* spacing > mk_ident' % ('!keyword ' if ws else ''))
        R.append('ident_start = ["a-zA-Z_%s"]' % ('é' if p['alpha'] else ''))
        R.append('ident_char = %s' % ('ident_start / digit' if p['split'] else '["a-zA-Z0-9_%s"]' % ('é' if p['alpha'] else '')))
        R.append('digit = ["0-9"]')
        R.append('kw_tail = !ident_char spacing')
        if p['frac']:
            R.append('number = digit+ ("." digit+)? spacing > mk_frac')
            F.append('fn mk_frac(a: Vec<char>, b: Option<Vec<char>>) -> String { let mut s = text(a); if let Some(b) = b { s.push(\'.\'); s.push_str(&text(b)) } s }')
        else: R.append('number = digit+ spacing > text')
        if p['comment']:
            R.append('spacing = ([" \\n\\r\\t"] / comment)*:(^)' if rng.random() < 0.5 else 'spacing = ([" \\n\\r\\t"]+:(^) / comment:(^))*')
            R.append('comment = "%s" (!"\\n" .)* ("\\n" / !.)' % p['comment'])
        else: R.append('spacing = [" \\n\\r\\t"]*:(^)')
        F.append('fn num(s: String) -> V { V(s) }')
        F.append('fn var(s: String) -> V { V(s) }')
        F.append('fn mk_ident(h: char, t: Vec<char>) -> String { let mut s = String::new(); s.push(h); s.extend(t); s }')
        F.append('fn text(cs: Vec<char>) -> String { cs.into_iter().collect() }')
        kinds = [a for a, _ in p['levels']]
        if 'l' in kinds: F.append('fn fold_left(h: V, rest: Vec<(Op, V)>) -> V { rest.into_iter().fold(h, |a, (o, b)| bin(o, a, b)) }')
        if 'R' in kinds: F.append('fn fold_right(front: Vec<(V, Op)>, last: V) -> V { front.into_iter().rev().fold(last, |a, (b, o)| bin(o, b, a)) }')
        if 'r' in kinds or 'n' in kinds: F.append('fn fold_opt(h: V, rest: Option<(Op, V)>) -> V { match rest { None => h, Some((o, b)) => bin(o, h, b) } }')
        F.append('fn bin(o: Op, a: V, b: V) -> V { V(format!("({} {} {})", o.text(), a.0, b.0)) }')
        if not p['str'] and p['frac'] is False: pass
        lines = R + F
        mode = rng.random()
        if mode < 0.3: rng.shuffle(lines)
        elif mode < 0.5: lines = F + R
        return '\n'.join([p['stream']] + lines)
    def rust(self, p):
        all_ops = [('O%d_%d' % (i, j), o) for i, (_, ops) in enumerate(p['levels']) for j, o in enumerate(ops)]
        return 'pub enum Op { %s } use self::Op::*; impl Op { fn text(&self) -> &\'static str { match self { %s } } }' % (
            ', '.join(a for a, _ in all_ops), ', '.join('%s => "%s"' % x for x in all_ops))
    def shown(self, v): return v
    def tree(self, rng, p, d):
        k = rng.random()
        if d <= 0 or k < 0.15:
            k = rng.random()
            if k < 0.4:
                return ('num', str(rng.choice([0, 1, 42, rng.randint(0, 10 ** 12)])) + ('.%d' % rng.randint(0, 99) if p['frac'] and rng.random() < 0.4 else ''))
            if k < 0.6 and p['str']: return ('str', ''.join(rng.choice('abé日 Z9\n"\\') for _ in range(rng.randint(0, 5))))
            return ('id', rng.choice(['a', 'b', 'x', 'y1', '_', 'lets', 'inn', 'iff', 'android', 'nothing', 'o', 'or_', 'is2', 'elsewhere'] + (['é', 'aé'] if p['alpha'] else [])))
        if k < 0.25 and p['un']: return ('un', rng.choice(p['un']), self.tree(rng, p, d - 1))
        if k < 0.35 and p['call']: return ('call', self.tree(rng, p, min(d - 1, rng.choice([0, 0, 2]))), [self.tree(rng, p, d - 1 - rng.randint(0, 1)) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
        if k < 0.42 and p['let']: return ('let', rng.choice(['x', 'y', 'lett', 'i1']), self.tree(rng, p, d - 1), self.tree(rng, p, d - 1))
        if k < 0.5 and p['if']:
            return ('if', self.tree(rng, p, d - 1), self.tree(rng, p, d - 1), self.tree(rng, p, d - 1) if rng.random() < 0.6 else None)
        i = rng.randrange(len(p['levels']))
        return ('bin', i, rng.choice(p['levels'][i][1]), self.tree(rng, p, d - rng.choice([1, 1, 2])), self.tree(rng, p, d - rng.choice([1, 1, 2])))
    def print(self, t, o, p):
        o.space()
        n = len(p['levels'])
        prim = n + 2
        def paren(t):
            o.tok('(')
            r = go(t, 0, True, False)
            o.tok(')')
            return r
        def go(t, lv, tail, noelse):
            k = t[0]
            my = {'bin': t[1], 'un': n, 'call': n + 1}.get(k, prim)
            if my < lv and my < prim or o.rng.random() < 0.02 or k in ('let', 'if') and (not tail or noelse):
                if my < prim and lv < prim: return go1(t, prim, tail, noelse, True)
                return go1(t, prim, tail, noelse, True)
            return go1(t, lv, tail, noelse, False)
        def at(start, v):
            return v + '@%s-%s' % (start, o.mark()) if p['span'] else v
        def go1(t, lv, tail, noelse, par):
            k = t[0]
            start = o.mark() if par or k in ('num', 'id', 'str', 'let', 'if') else None
            if par: return at(start, paren(t))
            if k in ('num', 'id'):
                o.tok(t[1])
                return at(start, t[1])
            if k == 'str':
                o.tok('"' + t[1].replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"')
                return at(start, "'" + hexs(t[1]) + "'")
            if k == 'let':
                o.tok('let')
                o.tok(t[1])
                o.tok('=')
                a = go(t[2], 0, True, False)
                o.tok('in')
                b = go(t[3], 0, tail, noelse)
                return at(start, '(let %s %s %s)' % (t[1], a, b))
            if k == 'if':
                o.tok('if')
                c = go(t[1], 0, True, False)
                o.tok('then')
                a = go(t[2], 0, True if t[3] is not None else tail, t[3] is not None or noelse)
                b = ''
                if t[3] is not None:
                    o.tok('else')
                    b = ' ' + go(t[3], 0, tail, noelse)
                return at(start, '(if %s %s%s)' % (c, a, b))
            if k == 'un':
                o.tok(t[1])
                return '(u%s %s)' % (t[1], go(t[2], n, tail, noelse))
            if k == 'call':
                f = go(t[1], n + 1 if t[1][0] == 'call' else prim, False, noelse)
                o.tok('(')
                args = []
                for j, x in enumerate(t[2]):
                    if j: o.tok(',')
                    args.append(go(x, 0, True, False))
                o.tok(')')
                return '(call %s [%s])' % (f, ' '.join(args))
            assoc = p['levels'][t[1]][0]
            a = go(t[3], t[1] + (assoc != 'l'), False, noelse)
            o.tok(t[2])
            return '(%s %s %s)' % (t[2], a, go(t[4], t[1] + (assoc in 'ln'), tail, noelse))
        return go(t, 0, True, False)
    alphabet = '+-*/%^=!<>&|@.:()," \n#1axletinif\\é'
    class Parser(Hand):
        def isword(self, c):
            if digit(c) and self.p['split']: self.far = max(self.far, self.i)         # not an ident_start
            return word(c) or (self.p['alpha'] and c == 'é')
        def ws(self):
            p = self.p
            if not p['comment']:
                self.many(self.one, blank)
                return
            def comment():
                self.lit(p['comment'])
                while self.i < len(self.s) and self.s[self.i] != '\n':
                    self.i += 1
                    self.far = max(self.far, self.i - 1)
                self.far = max(self.far, self.i)
                if self.i < len(self.s): self.i += 1
            self.many(lambda: self.first(lambda: self.one(blank), comment))
        def tok(self, t):
            self.lit(t)
            if word(t[0]): self.no(self.one, self.isword)
            self.ws()
            return t
        def program(self):
            self.ws()
            v = self.level(0)
            if self.p['eof']: self.no(self.one, lambda c: True)
            return v
        def level(self, i):
            p = self.p
            if i == len(p['levels']): return self.una()
            assoc, ops = p['levels'][i]
            bop = lambda: self.first(*[lambda o=o: self.tok(o) for o in ops])
            sub = lambda: self.level(i + 1)
            a = sub()
            if assoc == 'l':
                for o, b in self.many(lambda: (bop(), sub())): a = '(%s %s %s)' % (o, a, b)
                return a
            if assoc == 'R':
                xs = [a]
                while True:         # an operator read is never given back
                    o = self.opt(bop)
                    if o is None: break
                    xs += [o[0], sub()]
                a = xs.pop()
                while xs:
                    o = xs.pop()
                    a = '(%s %s %s)' % (o, xs.pop(), a)
                return a
            r = self.opt(lambda: (bop(), self.level(i) if assoc == 'r' else sub()))
            return '(%s %s %s)' % (r[0][0], a, r[0][1]) if r else a
        def una(self):
            r = self.opt(lambda: '(u%s %s)' % (self.first(*[lambda u=u: self.tok(u) for u in self.p['un']]), self.una())) if self.p['un'] else None
            return r[0] if r else self.post()
        def post(self):
            f = self.prim()
            if self.p['call']:
                def args():
                    return [self.level(0)] + self.many(lambda: (self.tok(','), self.level(0))[1])
                def call():
                    self.tok('(')
                    a = self.opt(args)
                    self.tok(')')
                    return a[0] if a else []
                for a in self.many(call): f = '(call %s [%s])' % (f, ' '.join(a))
            return f
        def prim(self):
            start = self.i
            v = self.prim0()
            b = lambda k: len(self.s[:k].encode())
            return v + '@%d-%d' % (b(start), b(self.i)) if self.p['span'] else v
        def number(self):
            s = ''.join(self.some(self.one, digit))
            if self.p['frac']:
                r = self.opt(lambda: self.lit('.') + ''.join(self.some(self.one, digit)))
                if r: s += r[0]
            self.ws()
            return s
        def string(self):
            def esc():
                self.lit('\\')
                return self.first(lambda: (self.lit('n'), '\n')[1], lambda: self.one(lambda c: c in '"\\'))
            self.lit('"')
            s = ''.join(self.many(lambda: self.first(esc, lambda: self.one(lambda c: c in ' é日' or (word(c) and c != '_')))))
            self.lit('"')
            self.ws()
            return "'" + hexs(s) + "'"
        def ident(self):
            ws = sorted(self.words(), key=lambda w: (-len(w), w))
            if ws: self.no(lambda: (self.first(*[lambda w=w: self.lit(w) for w in ws]), self.no(self.one, self.isword)))
            s = self.one(lambda c: not digit(c) and self.isword(c)) + ''.join(self.many(self.one, self.isword))
            self.ws()
            return s
        def words(self): return LANGS['expr'].words(self.p)
        def let(self):
            self.tok('let')
            x = self.ident()
            self.tok('=')
            a = self.level(0)
            self.tok('in')
            return '(let %s %s %s)' % (x, a, self.level(0))
        def cond(self):
            self.tok('if')
            c = self.level(0)
            self.tok('then')
            a = self.level(0)
            b = self.opt(lambda: (self.tok('else'), self.level(0))[1])
            return '(if %s %s%s)' % (c, a, ' ' + b[0] if b else '')
        def paren(self):
            self.tok('(')
            a = self.level(0)
            self.tok(')')
            return a
        def prim0(self):
            p = self.p
            return self.first(*[self.number] + [self.string] * p['str'] + [self.let] * p['let'] + [self.cond] * p['if'] + [self.ident, self.paren])
    def smaller(self, p):
        for k in ('call', 'let', 'if', 'str', 'span', 'variants', 'eof', 'frac', 'alpha', 'split'):
            if p[k]: yield dict(p, **{k: False})
        if p['comment']: yield dict(p, comment='')
        if p['stream']: yield dict(p, stream='')
        if p['un']:
            yield dict(p, un=[])
            for j in range(len(p['un'])): yield dict(p, un=p['un'][:j] + p['un'][j + 1:])
        for j in range(len(p['levels'])):
            if len(p['levels']) > 1: yield dict(p, levels=p['levels'][:j] + p['levels'][j + 1:])
            a, ops = p['levels'][j]
            if len(ops) > 1:
                for q in range(len(ops)): yield dict(p, levels=p['levels'][:j] + [[a, ops[:q] + ops[q + 1:]]] + p['levels'][j + 1:])

# ------------------------------------------------------------------ JSON
JSON_RUST = r'''
  #[derive(Debug, Clone)]
  pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
  impl VShow for J {
    fn show(&self, o: &mut String) {
      match self {
        J::Null => o.push_str("null"), J::Bool(b) => o.push_str(if *b { "true" } else { "false" }), J::Num(n) => o.push_str(n),
        J::Str(s) => { o.push('\''); o.push_str(&support::hex(s)); o.push('\'') }
        J::Arr(v) => { o.push('['); for x in v { x.show(o); o.push(';') } o.push(']') }
        J::Obj(v) => { o.push('{'); for (k, x) in v { o.push_str(&support::hex(k)); o.push(':'); x.show(o); o.push(';') } o.push('}') }
      }
    }
    fn tname(o: &mut String) { o.push('J') }
  }
'''
class Json:
    name = 'json'
    def params(self, rng):
        return {'neg': rng.random() < 0.7, 'frac': rng.random() < 0.7, 'exp': rng.random() < 0.6, 'comma': rng.random() < 0.3, 'eof': rng.random() < 0.6,
                'any': rng.random() < 0.6, 'order': rng.randint(0, 10 ** 6), 'comment': ''}
    def body(self, p):
        import random
        rng = random.Random(p['order'])
        tc = ' comma?' if p['comma'] else ''
        R = ['program = spacing value' + (' !.' if p['eof'] else ''),
             'value: J = object / array / string > Str / number / keyword',
             'object = lbrace (pair (comma pair)*%s)? rbrace > mk_obj' % tc,
             'pair = string colon value',
             'array = lbracket (value (comma value)*%s)? rbracket > mk_arr' % tc,
             'keyword = "true" spacing > mk_true / "false" spacing > mk_false / "null" spacing > mk_null',
             'string = "\\"" char* "\\"" spacing > text',
             'char = "\\\\" escape / ' + ('!["\\"\\\\"] . > same' if p['any'] else '["a-zA-Z0-9 éß日{}:,"] > same'),
             'escape = "n" > nl / "t" > tab / ["\\"\\\\/"] > same',
             'number = ' + ('minus? ' if p['neg'] else '') + '("0" > zero / ["1-9"] digit* > cat)' + (' frac?' if p['frac'] else '') + (' expo?' if p['exp'] else '') + ' spacing > mk_num',
             'digit = ["0-9"]',
             'spacing = [" \\n\\r\\t"]*:(^)']
        F = ["fn nl() -> char { '\\n' }", "fn tab() -> char { '\\t' }", 'fn mk_true() -> J { J::Bool(true) }', 'fn mk_false() -> J { J::Bool(false) }', 'fn mk_null() -> J { J::Null }',
             'fn same(c: char) -> char { c }', "fn zero() -> String { \"0\".to_string() }", 'fn cat(h: char, t: Vec<char>) -> String { let mut s = String::new(); s.push(h); s.extend(t); s }',
             'fn text(cs: Vec<char>) -> String { cs.into_iter().collect() }',
             'fn mk_obj(x: Option<(String, J, Vec<(String, J)>)>) -> J { J::Obj(match x { None => vec![], Some((k, v, r)) => { let mut o = vec![(k, v)]; o.extend(r); o } }) }',
             'fn mk_arr(x: Option<(J, Vec<J>)>) -> J { J::Arr(match x { None => vec![], Some((v, r)) => { let mut o = vec![v]; o.extend(r); o } }) }']
        args, parts = [], []
        if p['neg']:
            R.append('minus = "-" > mk_minus')
            F.append("fn mk_minus() -> char { '-' }")
            args.append('m: Option<char>')
            parts.append('if let Some(c) = m { s.push(c) }')
        args.append('i: String')
        parts.append('s.push_str(&i);')
        if p['frac']:
            R.append('frac = "." digit+')
            args.append('f: Option<Vec<char>>')
            parts.append("if let Some(f) = f { s.push('.'); s.push_str(&text(f)) }")
        if p['exp']:
            R.append('expo = ["eE"] ["+-"]? digit+')
            args.append('e: Option<(char, Option<char>, Vec<char>)>')
            parts.append("if let Some((e, g, d)) = e { s.push(e); s.extend(g); s.push_str(&text(d)) }")
        F.append('fn mk_num(%s) -> J { let mut s = String::new(); %s J::Num(s) }' % (', '.join(args), ' '.join(parts)))
        for n, c in (('lbrace', '{'), ('rbrace', '}'), ('lbracket', '['), ('rbracket', ']'), ('colon', ':'), ('comma', ',')): R.append('%s = "%s" spacing' % (n, c))
        lines = R + F
        if rng.random() < 0.4: rng.shuffle(lines)
        return '\n'.join(lines)
    def rust(self, p): return JSON_RUST + 'use self::J::*;'
    def shown(self, v): return v
    def rstr(self, rng, p):
        return ''.join(rng.choice('ab Z9éß日{}:,' + '"\\\n\t/' if True else '') for _ in range(rng.choice([0, 1, 2, 3, 6])))
    def tree(self, rng, p, d):
        k = rng.random()
        if d <= 0 or k < 0.3:
            k = rng.random()
            if k < 0.3: return rng.choice(['null', 'true', 'false'])
            if k < 0.6: return ('str', self.rstr(rng, p))
            n = ('-' if p['neg'] and rng.random() < 0.3 else '') + str(rng.choice([0, 1, 9, 10, rng.randint(0, 10 ** 9)]))
            if p['frac'] and rng.random() < 0.3: n += '.%s' % rng.choice(['0', '5', '007'])
            if p['exp'] and rng.random() < 0.3: n += rng.choice('eE') + rng.choice(['', '+', '-']) + str(rng.randint(0, 99))
            return ('num', n)
        n = rng.choice([0, 1, 2, 2, 3, 5])
        if k < 0.65: return ('arr', [self.tree(rng, p, d - 1) for _ in range(n)])
        return ('obj', [(self.rstr(rng, p), self.tree(rng, p, d - 1)) for _ in range(n)])
    def print(self, t, o, p):
        def string(s):
            r = ''
            for c in s:
                if c == '"' or c == '\\': r += '\\' + c
                elif c == '\n' and (not p['any'] or o.rng.random() < 0.5): r += '\\n'
                elif c == '\t' and (not p['any'] or o.rng.random() < 0.5): r += '\\t'
                elif c == '/' and (not p['any'] or o.rng.random() < 0.5): r += '\\/'
                else: r += c
            o.tok('"' + r + '"')
            return hexs(s)
        def go(t):
            if isinstance(t, str):
                o.tok(t)
                return t
            if t[0] == 'num':
                o.tok(t[1])
                return t[1]
            if t[0] == 'str': return "'" + string(t[1]) + "'"
            a, b = '[]' if t[0] == 'arr' else '{}'
            o.tok(a)
            r = a
            for j, x in enumerate(t[1]):
                if j: o.tok(',')
                if t[0] == 'obj':
                    r += string(x[0]) + ':'
                    o.tok(':')
                    x = x[1]
                r += go(x) + ';'
            if t[1] and p['comma'] and o.rng.random() < 0.2: o.tok(',')
            o.tok(b)
            return r + b
        o.space()
        return go(t)
    alphabet = '{}[]:,"\\ \n0123-.eEtrufalsn/é'
    class Parser(Hand):
        def ws(self): self.many(self.one, blank)
        def tok(self, t):
            self.lit(t)
            self.ws()
            return t
        def program(self):
            self.ws()
            v = self.value()
            if self.p['eof']: self.no(self.one, lambda c: True)
            return v
        def value(self):
            return self.first(self.obj, self.arr, lambda: "'" + hexs(self.string()) + "'", self.number,
                              lambda: self.tok('true'), lambda: self.tok('false'), lambda: self.tok('null'))
        def items(self, f):
            def go():
                v = [f()] + self.many(lambda: (self.tok(','), f())[1])
                if self.p['comma']: self.opt(self.tok, ',')
                return v
            r = self.opt(go)
            return r[0] if r else []
        def obj(self):
            self.tok('{')
            def pair():
                k = self.string()
                self.tok(':')
                return hexs(k) + ':' + self.value() + ';'
            v = self.items(pair)
            self.tok('}')
            return '{' + ''.join(v) + '}'
        def arr(self):
            self.tok('[')
            v = self.items(lambda: self.value() + ';')
            self.tok(']')
            return '[' + ''.join(v) + ']'
        def string(self):
            def char():
                r = self.opt(self.esc)
                if r: return r[0]
                if self.p['any']:
                    self.no(self.one, lambda c: c in '"\\')
                    return self.one(lambda c: True)
                return self.one(lambda c: (word(c) and c != '_') or c in ' éß日{}:,')
            self.lit('"')
            s = ''.join(self.many(char))
            self.lit('"')
            self.ws()
            return s
        def esc(self):
            self.lit('\\')
            return self.first(lambda: (self.lit('n'), '\n')[1], lambda: (self.lit('t'), '\t')[1], lambda: self.one(lambda c: c in '"\\/'))
        def number(self):
            p = self.p
            s = ''
            if p['neg']: s += (self.opt(self.lit, '-') or ('',))[0]
            s += self.first(lambda: self.lit('0'), lambda: self.one(lambda c: '1' <= c <= '9') + ''.join(self.many(self.one, digit)))
            if p['frac']: s += (self.opt(lambda: self.lit('.') + ''.join(self.some(self.one, digit))) or ('',))[0]
            if p['exp']:
                s += (self.opt(lambda: self.one(lambda c: c in 'eE') + (self.opt(self.one, lambda c: c in '+-') or ('',))[0] + ''.join(self.some(self.one, digit))) or ('',))[0]
            self.ws()
            return s
    def smaller(self, p):
        for k in ('neg', 'frac', 'exp', 'comma', 'eof', 'any'):
            if p[k]: yield dict(p, **{k: False})

# ------------------------------------------------------------------ s-expressions
class Sexp:
    name = 'sexp'
    def params(self, rng):
        return {'quote': rng.random() < 0.6, 'dot': rng.random() < 0.5, 'comment': ';' if rng.random() < 0.5 else '', 'str': rng.random() < 0.5, 'span': rng.random() < 0.5,
                'order': rng.randint(0, 10 ** 6)}
    def body(self, p):
        import random
        rng = random.Random(p['order'])
        alts = ['list'] + ['quote'] * p['quote'] + ['string > mk_str'] * p['str'] + ['atom > V']
        R = ['program = spacing sexp* !.',
             'list = "(" spacing sexp*%s ")" spacing > mk_list' % (' ("." !atom_char spacing sexp)?' if p['dot'] else ''),
             'atom = %satom_char+ spacing > text' % ('!("." !atom_char) ' if p['dot'] else ''),
             'atom_char = !["()\'\\"; \\n\\r\\t"] .' if rng.random() < 0.5 else 'atom_char = ["a-zA-Z0-9+*/<=>!?.é_-"]']
        R.append(('sexp: V = .. item > at' if p['span'] else 'sexp: V = item'))
        R.append('item: V = ' + ' / '.join(alts))
        F = ['fn text(cs: Vec<char>) -> String { cs.into_iter().collect() }']
        if p['span']: F.append('fn at(s: Span, v: V) -> V { V(format!("{}@{}-{}", v.0, s.lo.0, s.hi.0)) }')
        if p['dot']: F.append('fn mk_list(v: Vec<V>, d: Option<V>) -> V { V(format!("({}{})", v.into_iter().map(|x| x.0).collect::<Vec<_>>().join(" "), d.map(|d| format!(" . {}", d.0)).unwrap_or_default())) }')
        else: F.append('fn mk_list(v: Vec<V>) -> V { V(format!("({})", v.into_iter().map(|x| x.0).collect::<Vec<_>>().join(" "))) }')
        if p['quote']:
            R.append('quote = "\'" spacing sexp > mk_quote')
            F.append('fn mk_quote(x: V) -> V { V(format!("\'{}", x.0)) }')
        if p['str']:
            R.append('string = "\\"" ("\\\\" . / !["\\"\\\\"] .)* "\\"" spacing > text')
            F.append('fn mk_str(s: String) -> V { V(format!("<{}>", support::hex(&s))) }')
        R.append('spacing = ([" \\n\\r\\t"] / ";" (!"\\n" .)* "\\n")*:(^)' if False else
                 ('spacing = ([" \\n\\r\\t"]:(^) / comment)*' if p['comment'] else 'spacing = [" \\n\\r\\t"]*:(^)'))
        if p['comment']: R.append('comment = (";" (!"\\n" .)* ("\\n" / !.)):(^)')
        self_class = 'any' if '.' in R[3].split('=')[1].strip()[-2:] else 'cls'
        lines = R + F
        if rng.random() < 0.4: rng.shuffle(lines)
        return '\n'.join(lines)
    def anychar(self, p):
        import random
        return random.Random(p['order']).random() < 0.5
    def rust(self, p): return 'fn _v() {}'
    def shown(self, v): return '[' + ''.join(x + ';' for x in v) + ']'
    def atom(self, rng, p):
        while True:
            s = ''.join(rng.choice('abxyz019+*/<=>!?.é_-') for _ in range(rng.choice([1, 1, 2, 4])))
            if not (p['dot'] and s == '.'): return s
    def tree(self, rng, p, d):
        if d >= 4: return [self.one(rng, p, d) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        return [self.one(rng, p, d)]
    def one(self, rng, p, d):
        k = rng.random()
        if d <= 0 or k < 0.25:
            if p['str'] and rng.random() < 0.3: return ('str', ''.join(rng.choice('ab"\\\n é;(') for _ in range(rng.randint(0, 4))))
            return ('atom', self.atom(rng, p))
        if k < 0.35 and p['quote']: return ('quote', self.one(rng, p, d - 1))
        return ('list', [self.one(rng, p, d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))], self.one(rng, p, d - 1) if p['dot'] and rng.random() < 0.2 else None)
    def print(self, t, o, p):
        o.wordy = lambda c: c not in '()\'"; \n\r\t'
        def go(t):
            start = o.mark()
            if t[0] == 'atom':
                o.tok(t[1])
                v = t[1]
            elif t[0] == 'str':
                o.tok('"' + t[1].replace('\\', '\\\\').replace('"', '\\"') + '"')
                v = '<' + hexs(t[1]) + '>'
            elif t[0] == 'quote':
                o.tok("'")
                v = "'" + go(t[1])
            else:
                o.tok('(')
                xs = [go(x) for x in t[1]]
                v = '(' + ' '.join(xs)
                if t[2] is not None:
                    o.tok('.')
                    v += ' . ' + go(t[2])
                o.tok(')')
                v += ')'
            return v + ('@%s-%s' % (start, o.mark()) if p['span'] else '')
        o.space()
        return [go(x) for x in t]
    alphabet = '()()\'". ;\nab\\é-'
    class Parser(Hand):
        def ws(self):
            if not self.p['comment']:
                self.many(self.one, blank)
                return
            def comment():
                self.lit(';')
                while self.i < len(self.s) and self.s[self.i] != '\n':
                    self.far = max(self.far, self.i)
                    self.i += 1
                self.far = max(self.far, self.i)
                if self.i < len(self.s): self.i += 1
            self.many(lambda: self.first(lambda: self.one(blank), comment))
        def achar(self):
            if LANGS['sexp'].anychar(self.p):
                self.no(self.one, lambda c: c in '()\'"; \n\r\t')
                return self.one(lambda c: True)
            return self.one(lambda c: (word(c)) or c in '+*/<=>!?.é-')
        def program(self):
            self.ws()
            v = self.many(self.sexp)
            self.no(self.one, lambda c: True)
            return v
        def sexp(self):
            start = self.i
            v = self.first(*[self.list] + [self.quote] * self.p['quote'] + [self.string] * self.p['str'] + [self.atom])
            b = lambda k: len(self.s[:k].encode())
            return v + ('@%d-%d' % (b(start), b(self.i)) if self.p['span'] else '')
        def dot(self):
            self.lit('.')
            self.no(self.achar)
        def list(self):
            self.lit('(')
            self.ws()
            v = '(' + ' '.join(self.many(self.sexp))
            if self.p['dot']:
                def tail():
                    self.dot()
                    self.ws()
                    return self.sexp()
                r = self.opt(tail)
                if r: v += ' . ' + r[0]
            self.lit(')')
            self.ws()
            return v + ')'
        def quote(self):
            self.lit("'")
            self.ws()
            return "'" + self.sexp()
        def string(self):
            self.lit('"')
            def char():
                def esc():
                    self.lit('\\')
                    return self.one(lambda c: True)
                r = self.opt(esc)
                if r: return r[0]
                self.no(self.one, lambda c: c in '"\\')
                return self.one(lambda c: True)
            s = ''.join(self.many(char))
            self.lit('"')
            self.ws()
            return '<' + hexs(s) + '>'
        def atom(self):
            if self.p['dot']: self.no(self.dot)
            s = ''.join(self.some(self.achar))
            self.ws()
            return s
    def smaller(self, p):
        for k in ('quote', 'dot', 'str', 'span'):
            if p[k]: yield dict(p, **{k: False})
        if p['comment']: yield dict(p, comment='')

# ------------------------------------------------------------------ comma separated values
class Csv:
    name = 'csv'
    def params(self, rng):
        return {'sep': rng.choice([',', ';', '\\t', '|']), 'quoted': rng.random() < 0.8, 'comment': '', 'order': rng.randint(0, 10 ** 6)}
    def body(self, p):
        s = p['sep']
        return '\n'.join([
            'program = record (eol record)* !. > cons_r' if False else 'program = record (eol record)*',
            'record = field ("%s" field)* > cons' % s,
            'field = %sbare' % ('quoted / ' if p['quoted'] else ''),
            'quoted = "\\"" (double / !"\\"" . > same)* "\\"" > text' if p['quoted'] else '',
            'double = "\\"\\"" > dq' if p['quoted'] else '',
            'bare = (!["%s\\"\\n\\r"] .)* > text' % s,
            'eol = "\\r\\n" / "\\n" / "\\r"',
            "fn dq() -> char { '\"' } fn same(c: char) -> char { c }" if p['quoted'] else '',
            'fn text(cs: Vec<char>) -> String { cs.into_iter().collect() }',
            'fn cons(h: String, t: Vec<String>) -> Vec<String> { let mut v = vec![h]; v.extend(t); v }'])
    def rust(self, p): return ''
    def show_rec(self, r): return '[' + ''.join('s' + hexs(f) + ';' for f in r) + ']'
    def shown(self, v):
        return '(' + self.show_rec(v[0]) + ',[' + ''.join(self.show_rec(r) + ';' for r in v[1:]) + '])'
    def tree(self, rng, p, d):
        al = 'ab,;\t|é 1' + ('"\n\r' if p['quoted'] else '')
        return [[''.join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 4]))) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    def sep(self, p): return {'\\t': '\t'}.get(p['sep'], p['sep'])
    def print(self, t, o, p):
        s = self.sep(p)
        if not p['quoted']: t = [[f.replace(s, '_') for f in r] for r in t]
        for i, r in enumerate(t):
            if i:
                o.put(o.rng.choice(['\n', '\r\n', '\r']))
            for j, f in enumerate(r):
                if j: o.put(s)
                if any(c in f for c in s + '"\n\r') or p['quoted'] and o.rng.random() < 0.2: o.put('"' + f.replace('"', '""') + '"')
                else: o.put(f)
        return t
    alphabet = 'a,;\t|"\n\ré'
    class Parser(Hand):
        def sep(self): return LANGS['csv'].sep(self.p)
        def program(self):
            return [self.record()] + self.many(lambda: (self.eol(), self.record())[1])
        def eol(self): return self.first(lambda: self.lit('\r\n'), lambda: self.lit('\n'), lambda: self.lit('\r'))
        def record(self):
            return [self.field()] + self.many(lambda: (self.lit(self.sep()), self.field())[1])
        def field(self):
            return self.first(self.quoted, self.bare) if self.p['quoted'] else self.bare()
        def quoted(self):
            self.lit('"')
            def char():
                r = self.opt(self.lit, '""')
                if r: return '"'
                self.no(self.lit, '"')
                return self.one(lambda c: True)
            s = ''.join(self.many(char))
            self.lit('"')
            return s
        def bare(self):
            def char():
                self.no(self.one, lambda c: c in self.sep() + '"\n\r')
                return self.one(lambda c: True)
            return ''.join(self.many(char))
    def smaller(self, p):
        if p['sep'] != ',': yield dict(p, sep=',')
        if p['quoted']: yield dict(p, quoted=False)

# ------------------------------------------------------------------ mark-up
class Markup:
    name = 'markup'
    def params(self, rng):
        return {'attrs': rng.random() < 0.7, 'void': rng.random() < 0.6, 'entity': rng.random() < 0.5, 'comment': '', 'cmt': rng.random() < 0.4, 'order': rng.randint(0, 10 ** 6)}
    def body(self, p):
        import random
        rng = random.Random(p['order'])
        R = ['program = spacing element spacing',
             'element: V = "<" name%s %s' % (' attr*' if p['attrs'] else '', '(void / full) > mk' if p['void'] else 'full > mk'),
             'full = ">" content* "</" name ">"' + (' > some' if p['void'] else ''),
             'content: V = %selement / %stext_run' % ('remark / ' if p['cmt'] else '', 'entity / ' if p['entity'] else ''),
             'text_run = (!["<&"] .)+ > mk_text',
             'name = ["a-z"] ["a-z0-9-"]* spacing > mk_name',
             'spacing = [" \\n"]*:(^)']
        F = ['fn mk_name(h: char, t: Vec<char>) -> String { let mut s = String::new(); s.push(h); s.extend(t); s }',
             'fn mk_text(cs: Vec<char>) -> V { V(format!("\'{}\'", support::hex(&cs.into_iter().collect::<String>()))) }']
        at = 'attrs: Vec<(String, String)>, ' if p['attrs'] else ''
        sh = 'attrs.into_iter().map(|(k, v)| format!(" {}={}", k, support::hex(&v))).collect::<String>()' if p['attrs'] else 'String::new()'
        inner = 'format!("{}/{}", cs.into_iter().map(|x| x.0).collect::<String>(), end)'
        if p['void']:
            R.append('void = "/>" > nothing')
            F.append('fn nothing() -> Option<(Vec<V>, String)> { None }')
            F.append('fn some(v: Vec<V>, n: String) -> Option<(Vec<V>, String)> { Some((v, n)) }')
            F.append('fn mk(name: String, %sb: Option<(Vec<V>, String)>) -> V { V(format!("<{}{}>{}", name, %s, match b { None => "-".to_string(), Some((cs, end)) => %s })) }' % (at, sh, inner))
        else:
            F.append('fn mk(name: String, %scs: Vec<V>, end: String) -> V { V(format!("<{}{}>{}", name, %s, %s)) }' % (at, sh, inner))
        if p['attrs']:
            R.append('attr = name "=" spacing "\\"" (!"\\"" .)* "\\"" spacing > mk_attr')
            F.append('fn mk_attr(k: String, v: Vec<char>) -> (String, String) { (k, v.into_iter().collect()) }')
        if p['entity']:
            R.append('entity = "&" ("lt" > lt / "amp" > amp) ";" > mk_ent')
            F += ["fn lt() -> char { '<' }", "fn amp() -> char { '&' }", 'fn mk_ent(c: char) -> V { V(format!("&{}", c)) }']
        if p['cmt']:
            R.append('remark = "<!--" (!"-->" .)* "-->" > mk_remark')
            F.append('fn mk_remark(cs: Vec<char>) -> V { V(format!("!{}!", cs.len())) }')
        lines = R + F
        if rng.random() < 0.4: rng.shuffle(lines)
        return '\n'.join(lines)
    def rust(self, p): return ''
    def shown(self, v): return v
    def tree(self, rng, p, d):
        name = lambda: rng.choice(['a', 'b', 'p', 'h1', 'x-y', 'abc'])
        n = name()
        attrs = [(name(), ''.join(rng.choice('ab <>&é\'\n') for _ in range(rng.randint(0, 3)))) for _ in range(rng.choice([0, 0, 1, 2]))] if p['attrs'] else []
        if p['void'] and rng.random() < 0.2: return ('el', n, attrs, None, n)
        cs = []
        for _ in range(rng.choice([0, 1, 2, 3]) if d > 0 else 0):
            k = rng.random()
            if k < 0.45: cs.append(self.tree(rng, p, d - 1))
            elif k < 0.6 and p['entity']: cs.append(('ent', rng.choice(['lt', 'amp'])))
            elif k < 0.7 and p['cmt']: cs.append(('cmt', rng.choice(['', 'a', '<a>', 'a - b', '--', 'é'])))
            elif not cs or cs[-1][0] != 'txt': cs.append(('txt', ''.join(rng.choice('ab >"é\n') for _ in range(rng.randint(1, 4)))))
        return ('el', n, attrs, cs, name() if rng.random() < 0.1 else n)
    def print(self, t, o, p):
        def go(t):
            if t[0] == 'txt':
                o.put(t[1])
                return "'" + hexs(t[1]) + "'"
            if t[0] == 'ent':
                o.put('&' + t[1] + ';')
                return '&' + {'lt': '<', 'amp': '&'}[t[1]]
            if t[0] == 'cmt':
                o.put('<!--' + t[1] + '-->')
                return '!%d!' % len(t[1])
            _, n, attrs, cs, end = t
            o.put('<')
            o.put(n)
            sp = lambda must: o.put(o.rng.choice([' ', '\n', '  '])) if must or o.rng.random() < 0.2 else None
            r = '<' + n
            if not attrs: sp(False)
            for k, v in attrs:
                sp(True)
                o.put(k)
                sp(False)
                o.put('=')
                sp(False)
                o.put('"' + v + '"')
                r += ' %s=%s' % (k, hexs(v))
            sp(False)
            if cs is None:
                o.put('/>')
                return r + '>-'
            o.put('>')
            r += '>' + ''.join(go(c) for c in cs) + '/' + end
            o.put('</' + end)
            sp(False)
            o.put('>')
            return r
        if o.rng.random() < 0.2: o.put(' \n')
        r = go(t)
        if o.rng.random() < 0.2: o.put(' \n')
        return r
    alphabet = '<>/="&;!- \nabltmpé1'
    class Parser(Hand):
        def ws(self): self.many(self.one, lambda c: c in ' \n')
        def program(self):
            self.ws()
            v = self.element()
            self.ws()
            return v
        def name(self):
            s = self.one(lambda c: 'a' <= c <= 'z') + ''.join(self.many(self.one, lambda c: 'a' <= c <= 'z' or digit(c) or c == '-'))
            self.ws()
            return s
        def element(self):
            self.lit('<')
            r = '<' + self.name()
            if self.p['attrs']:
                for k, v in self.many(self.attr): r += ' %s=%s' % (k, hexs(v))
            if self.p['void'] and self.opt(self.lit, '/>'): return r + '>-'
            self.lit('>')
            cs = self.many(self.content)
            self.lit('</')
            end = self.name()
            self.lit('>')
            return r + '>' + ''.join(cs) + '/' + end
        def until(self, end):
            s = ''
            while not self.s.startswith(end, self.i) and self.i < len(self.s):
                self.far = max(self.far, self.i)
                s += self.s[self.i]
                self.i += 1
            if self.i == len(self.s): self.far = max(self.far, self.i)
            return s
        def attr(self):
            k = self.name()
            self.lit('=')
            self.ws()
            self.lit('"')
            v = self.until('"')
            self.lit('"')
            self.ws()
            return k, v
        def content(self):
            return self.first(*[self.remark] * self.p['cmt'] + [self.element] + [self.entity] * self.p['entity'] + [self.run_])
        def remark(self):
            self.lit('<!--')
            s = self.until('-->')
            self.lit('-->')
            return '!%d!' % len(s)
        def entity(self):
            self.lit('&')
            c = self.first(lambda: (self.lit('lt'), '<')[1], lambda: (self.lit('amp'), '&')[1])
            self.lit(';')
            return '&' + c
        def run_(self):
            def char():
                self.no(self.one, lambda c: c in '<&')
                return self.one(lambda c: True)
            return "'" + hexs(''.join(self.some(char))) + "'"
    def smaller(self, p):
        for k in ('attrs', 'void', 'entity', 'cmt'):
            if p[k]: yield dict(p, **{k: False})

LANGS = {l.name: l for l in (Calc(), Expr(), Json(), Sexp(), Csv(), Markup())}

@register
class C24(Check):
    id = 'C24'
    technique = 'property-based testing: trees of realistic languages printed with random spacing and parsed back; damaged texts compared with parsers written by hand'
    rule = ('A case is a call of the parser or of the recognizer of a language (the calculator of the book, random expression languages, JSON, s-expressions, CSV, mark-up) on a printed or '
            'damaged text; non-trivial: a printed tree of at least 8 characters, or a damaged text of which at least 3 characters are read.')
    quick = (32, 24)
    thorough = (400, 40)
    min_nontrivial = 5000
    texts = 40
    def make_item(self, rng, k, tier):
        lang = LANGS[rng.choice(['calc', 'expr', 'expr', 'expr', 'expr', 'json', 'json', 'sexp', 'csv', 'markup'])]
        p = lang.params(rng)
        cases = []
        while len(cases) < self.texts:
            double = lang.name == 'calc' or lang.name == 'expr' and any(a == 'R' for a, _ in p['levels'])
            d = rng.choice([1, 2, 3, 4, 5] if double else [1, 2, 3, 4, 5, 6, 7])
            t = lang.tree(rng, p, d)
            o = Out(rng, p.get('comment', ''))
            v = lang.print(t, o, p)
            s = o.render()
            v = o.resolve(v)
            # an empty record between two ends of line can read as one
            if lang.name == 'csv' and '\r\n' in s: v = None
            if len(s) > 1500: continue
            if double and self.depth(s) > 7: continue
            if v is not None: cases.append([s, lang.shown(v)])
            for _ in range(rng.choice([0, 1, 2])):
                x = self.damage(s, rng, lang)
                if not double or self.depth(x) <= 8: cases.append([x, None])
        return {'lang': lang.name, 'params': p, 'cases': cases}
    def depth(self, s):
        """Nesting of the expressions of a text, roughly."""
        d = m = 0
        for w in re.findall(r'[()]|\blet\b|\bif\b', s):
            if w == ')': d = max(0, d - 1)
            else:
                d += 1
                m = max(m, d)
        return m
    def damage(self, s, rng, lang):
        n = rng.choice([1, 1, 1, 2, 3])
        for _ in range(n):
            i = rng.randint(0, len(s))
            k = rng.random()
            if k < 0.3: s = s[:i] + s[i + 1:]
            elif k < 0.55: s = s[:i] + rng.choice(lang.alphabet) + s[i:]
            elif k < 0.75: s = s[:i] + rng.choice(lang.alphabet) + s[i + 1:]
            elif k < 0.85: s = s[:i]
            else:
                j = rng.randint(0, len(s))
                i, j = min(i, j), max(i, j)
                s = s[:i] + s[j:] if k < 0.92 else s[:j] + s[i:j][:60] + s[j:]
        return s
    def expected(self, lang, p, s):
        """-> (ok, position, farthest, shown value), or None when a number is out of range."""
        h = lang.Parser(s, p)
        try:
            ok, pos, far, v = h.run()
        except Overflow:
            return None
        return ok, pos, far, lang.shown(v) if ok else None
    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        verdicts = [None] * len(items)
        mods = []
        for i, it in enumerate(items):
            lang = LANGS[it['lang']]
            p = it['params']
            arms = ['0 => support::run1(support::Stream::stream(&*c.input), c.skip, c.again, &|s| support::conv(parse_program(s))),',
                    '1 => support::run1(support::Stream::stream(&*c.input), c.skip, c.again, &|s| support::conv(recognize_program(s))),']
            mods.append('mod m%d { use support::{self, V, VShow, Case}; use support::Stream as _; use oak::oak; use support::Span; oak! {\n%s\n}\n%s\npub fn run(c: &Case) -> String { match c.fun { %s _ => String::new() } } }\n'
                        % (i, lang.body(p), lang.rust(p), ' '.join(arms)))
        b = build.Batch(art, workdir, mods).compile()
        cases, where = [], []
        for i, it in enumerate(items):
            if b.errors[i] is not None:
                if b.errors[i] != 'HANG': verdicts[i] = 'compile: the grammar of the language does not compile: ' + diag_text(b.errors[i])
                continue
            lang = LANGS[it['lang']]
            for s, v in it['cases']:
                e = self.expected(lang, it['params'], s)
                if e is None: continue
                for f in (0, 1):
                    where.append((i, s, v, e, f))
                    cases.append((b.order[i], f, build.BIG, 0, 0, s))
        if stats is not None:
            stats.evaluations += len(cases)
            stats.add('languages', len(items))
        obs = build.run_cases(b.binary, cases, workdir, cpu=60) if cases else []
        for (i, s, v, e, f), o in zip(where, obs):
            it = items[i]
            if verdicts[i] or o.kind in ('HANG', 'SKIPPED'): continue
            lang = LANGS[it['lang']]
            m = self.compare(s, v, e, f, o)
            if m:
                verdicts[i] = '%s: %s_program of %s on %r: %s' % (m[0], ['parse', 'recognize'][f], lang.name, s, m[1])
                it['_case'] = [s, v]
            elif stats is not None:
                if v is not None and len(s) >= 8 or v is None and e[2] >= 3: stats.nontrivial((lang.name, lang.body(it['params']), s, f))
                stats.add('printed trees' if v is not None else 'damaged texts')
                if e[0] and e[1] < len(s.encode()): stats.add('partial')
                stats.add('match' if e[0] else 'fail')
                if v is not None and 20 < len(s) < 80 and f == 0: stats.sample({'language': lang.name, 'text': s, 'tree': o.data})
        return verdicts
    def compare(self, s, v, e, f, o):
        if o.kind == 'CRASH': return ('crash', o.msg)
        if o.kind != 'OBS': return ('panic', o.brief())
        ok, pos, far, val = e
        if v is not None:
            if not ok or pos != len(s.encode()) or val != v: raise RuntimeError('the parser written by hand is wrong on %r: %r, %r' % (s, v, e))
        if o.ok != ok: return ('outcome', '%s instead of %s' % (o.brief(), 'success at %d' % pos if ok else 'failure'))
        if ok and o.cur != pos: return ('position', 'stops at %d instead of %d' % (o.cur, pos))
        if ok and f == 0 and o.data != val: return ('value', 'builds %s instead of %s' % (o.data, val))
        if o.far != far: return ('farthest', 'farthest failure at %d instead of %d' % (o.far, far))
        full = ok and pos == len(s.encode())
        if o.res != ('F' if full else 'P' if ok else 'E'): return ('result', 'classified %s' % o.res)
        return None
    def shrinks(self, item, msg):
        c = item.pop('_case', None)
        base = {k: v for k, v in item.items() if not k.startswith('_')}
        if len(base['cases']) > 1:
            if c is not None: yield dict(base, cases=[[c[0], None]])
            if msg.startswith('compile'): yield dict(base, cases=[])
        lang = LANGS[item['lang']]
        if hasattr(lang, 'smaller'):
            for p in lang.smaller(base['params']):
                yield dict(base, params=p, cases=[[s, None] for s, v in base['cases']])
        if len(base['cases']) == 1:
            s = base['cases'][0][0]
            for t in shrink_text(s): yield dict(base, cases=[[t, None]])
    def cost(self, item):
        lang = LANGS[item['lang']]
        return len(lang.body(item['params'])) + len(lang.rust(item['params'])) + sum(5 + 3 * len(s) + 2 * sum(c not in 'a1' for c in s) + (v is not None) for s, v in item['cases'])
    def describe(self, item):
        lang = LANGS[item['lang']]
        out = ['  oak! {'] + ['    ' + l for l in lang.body(item['params']).split('\n') if l.strip()] + ['  }']
        for s, v in item['cases'][:5]: out.append('  program(%r)%s' % (s, ' should build %s' % v if v else ''))
        return '\n'.join(out)
