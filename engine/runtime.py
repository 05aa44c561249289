"""Model-based checks of the runtime: histories of operations on streams and parse states."""
import subprocess, os, json
import build, core
from core import Check
from props import register, error_text

CHARS = ['a', 'a', 'b', 'b', 'c', '\n', '\n', '\r', '\r\n', '\t', 'é', 'ß', '日', '😀', '\u0301', '\u2028', '\x00', '\x7f', 'Z', '-']

def hexs(s):
    return s.encode().hex()

def run_histories(art, items, workdir):
    if not os.path.exists(getattr(art, 'modelrt', '')):
        raise build.BuildFailure('modelrt was not built')
    lines = ['%s %d x%s %s' % (it['kind'], it['base'], hexs(it['text']), ' '.join(it['ops'])) for it in items]
    p = subprocess.run([art.modelrt], input='\n'.join(lines).encode() + b'\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    out = p.stdout.decode('utf-8', 'replace').split('\n')
    out = out[:-1]
    if p.returncode != 0 and len(out) >= len(items):
        raise RuntimeError('modelrt failed: ' + p.stderr.decode('utf-8', 'replace')[-300:])
    return out + [None] * (len(items) - len(out))

class Text:
    def __init__(self, s):
        self.s = s
        self.off = [0]
        for c in s: self.off.append(self.off[-1] + len(c.encode()))
    def loc(self, i):
        before = self.s[:i]
        j = before.rfind('\n')
        return '%d:%d' % (before.count('\n') + 1, len(before[j + 1:].encode()) + 1)
    def snippet(self, i, n):
        if i == len(self.s): return '<end-of-file>'
        j = i
        while j < len(self.s) and self.off[j + 1] - self.off[i] <= n: j += 1
        return self.s[i:j]
    def curchar(self, i):
        return '%x' % ord(self.s[i]) if i < len(self.s) else '-'

def rand_text(rng):
    k = rng.random()
    if k < 0.015: return long_text(rng, rng.choice([100, 255, 256, 300, 700]))
    if k < 0.017: return long_text(rng, rng.choice([4095, 9000, 65530, 65536, 70000]))
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 30])
    al = CHARS if rng.random() < 0.7 else ['a', 'b', '\n']
    return ''.join(rng.choice(al) for _ in range(n))

def long_text(rng, n):
    """Long lines and many lines: runs of the same few characters up to `n` bytes, or a bit more."""
    out, size = [], 0
    while size < n:
        run = rng.choice(['a', '\n', 'é', 'ab\n', '日b', 'abc', '😀', '\r\n']) * rng.choice([1, 2, 9, 60, 257, 1 + n // rng.choice([1, 2, 3])])
        out.append(run)
        size += len(run.encode())
    return ''.join(out)

def rand_prefix(rng, rest):
    if len(rest) > 40 and rng.random() < 0.5:
        p = rest[:rng.randint(1, min(len(rest), rng.choice([20, 300, 70000])))]
        return p if rng.random() < 0.6 else p[:-1] + rng.choice(CHARS)
    k = rng.random()
    n = rng.randint(0, min(len(rest), 5))
    if k < 0.5: return rest[:n]
    if k < 0.6: return ''
    if k < 0.7: return rest + rng.choice(['', 'a', 'é'])
    if k < 0.8: return rest[:n] + rng.choice(CHARS)
    if k < 0.9 and n: return rest[:n - 1] + rng.choice(CHARS)
    if k < 0.95 and n:
        # same first byte, other character
        c = rest[n - 1]
        try:
            return rest[:n - 1] + chr(ord(c) + 1) if not 0xd7ff <= ord(c) <= 0xdfff and ord(c) < 0x10ffff else rest[:n]
        except ValueError:
            return ''
    return ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 4)))

class HistoryCheck(Check):
    level = 'exploration'
    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        outs = run_histories(art, items, workdir)
        res = []
        for it, o in zip(items, outs):
            if o is None:
                res.append('crash: the process executing the history stopped')
                continue
            got = o.split('\t') if it['ops'] or it['kind'] == 'file' else []
            want, info = self.model(it)
            v = None
            for n, (w, g) in enumerate(zip(want, got + ['missing'] * len(want))):
                if w is not None and w != g:
                    name = it['ops'][n] if n < len(it['ops']) else 'lines'
                    v = '%s: operation %d `%s` gives `%s` instead of `%s`' % (name.split(':')[0], n + 1, self.show_op(name), self.show_out(name, g), self.show_out(name, w))
                    break
            res.append(v)
            if stats is not None:
                stats.evaluations += 1
                for k, x in info.items(): stats.add(k, x)
                if self.interesting(info): stats.nontrivial((it['kind'], it['text'], tuple(it['ops'])))
                if len(it['ops']) > 6 and self.interesting(info): stats.sample({'history': self.describe(it), 'observed': got[:8]}, 2)
        return res

    def show_op(self, op):
        w = op.split(':')
        if w[0] in ('prefix', 'error'): w[-1] = repr(bytes.fromhex(w[-1]).decode())
        return ' '.join(w)
    def show_out(self, op, x):
        return x

    def shrinks(self, item, msg):
        ops, s = item['ops'], item['text']
        n = len(ops)
        w = n // 2
        while w >= 1:
            for i in range(0, n, w):
                yield dict(item, ops=ops[:i] + ops[i + w:])
            w //= 2
        w = max(1, len(s) // 2)
        while w >= 1:
            for i in range(0, len(s), w):
                yield dict(item, text=s[:i] + s[i + w:])
            w //= 2
        if item['base']: yield dict(item, base=0)
        if item['kind'] in ('string',): yield dict(item, kind='str')
        if item['kind'] in ('statenew', 'statefile'): yield dict(item, kind='state')
        for i, c in enumerate(s):
            if c != 'a': yield dict(item, text=s[:i] + 'a' + s[i + 1:])

    def cost(self, item):
        return 10 * len(item['ops']) + sum(len(o) for o in item['ops']) + 2 * len(item['text']) + sum(c != 'a' for c in item['text']) \
            + (item['base'] > 0) + (item['kind'] not in ('str', 'file', 'state'))

    def describe(self, item):
        return '  %s stream over %r%s: %s' % (item['kind'], item['text'], ' at %d' % item['base'] if item['base'] else '', '; '.join(self.show_op(o) for o in item['ops']))

class StreamCheck(HistoryCheck):
    quick = (48, 6000)
    thorough = (160, 12000)
    min_nontrivial = 8000
    def make_item(self, rng, k, tier):
        text = rand_text(rng)
        kind, base = self.kind(rng)
        t = Text(text)
        pos = [0]
        ops = []
        for _ in range(rng.choice([rng.randint(3, 12), rng.randint(8, 40)])):
            i = rng.randrange(len(pos))
            j = rng.randrange(len(pos))
            o = rng.choice(['next', 'next', 'prefix', 'prefix', 'prefix', 'clone', 'cmp', 'cmp', 'has', 'loc', 'loc', 'snip', 'probe', 'span', 'span', 'rest', 'take', 'max', 'fresh'])
            if o == 'fresh' and rng.random() < 0.7: o = 'clone'
            if o == 'probe' and kind == 'file': o = 'loc'
            if o in ('next', 'has', 'loc', 'probe', 'rest', 'clone', 'fresh'): op = '%s:%d' % (o, i)
            elif o == 'take': op = 'take:%d:%d' % (i, rng.randint(0, 4) if len(text) < 60 or rng.random() < 0.3 else rng.randint(0, len(text) - pos[i]))
            elif o == 'prefix': op = 'prefix:%d:%s' % (i, hexs(rand_prefix(rng, text[pos[i]:])))
            elif o == 'snip': op = 'snip:%d:%d' % (i, rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 10, 100, 255, 1000, 65536, (1 << 32) + 1, (1 << 64) - 1]))
            elif o == 'span':
                if pos[i] > pos[j]: i, j = j, i
                op = 'span:%d:%d' % (i, j)
            else: op = '%s:%d:%d' % (o, i, j)
            ops.append(op)
            self.step(t, pos, op, base, {})
        return {'kind': kind, 'base': base, 'text': text, 'ops': ops}

    def step(self, t, pos, op, base, info):
        w = op.split(':')
        i = int(w[1]) % len(pos)
        n = len(t.s)
        def hit(k): info[k] = info.get(k, 0) + 1
        if w[0] == 'next':
            r = t.curchar(pos[i])
            if pos[i] < n: pos[i] += 1
            return r
        if w[0] == 'take':
            k = min(n, pos[i] + int(w[2]))
            r = t.s[pos[i]:k]
            pos[i] = k
            return hexs(r)
        if w[0] == 'rest': return hexs(t.s[pos[i]:])
        if w[0] == 'prefix':
            p = bytes.fromhex(w[2]).decode()
            if t.s.startswith(p, pos[i]):
                pos[i] += len(p)
                if p: hit('prefix consumed')
                return 'true'
            hit('prefix refused')
            return 'false'
        if w[0] == 'has': return 'true' if pos[i] < n else 'false'
        if w[0] == 'fresh':
            pos.append(0)
            hit('streams created again')
            return 'ok'
        if w[0] == 'clone':
            pos.append(pos[i])
            hit('clones')
            return 'ok'
        if w[0] == 'loc': return t.loc(pos[i])
        if w[0] == 'snip': return hexs(t.snippet(pos[i], int(w[2])))
        if w[0] == 'probe': return '%d %s %s' % (t.off[pos[i]], t.curchar(pos[i]), t.loc(pos[i]))
        j = int(w[2]) % len(pos)
        a, b = pos[i], pos[j]
        if w[0] == 'max': return t.loc(max(a, b))
        if w[0] == 'span':
            if a > b: return None
            return '%d-%d' % (base + t.off[a], base + t.off[b])
        if a != b: hit('distinct positions compared')
        o = '<' if a < b else '=' if a == b else '>'
        return '%s%s%d%d%d%d%d%d' % (o, o, a == b, a != b, a < b, a <= b, a > b, a >= b)

    def model(self, item):
        t = Text(item['text'])
        pos = [0]
        info = {}
        out = [self.step(t, pos, op, item['base'], info) for op in item['ops']]
        if item['kind'] == 'file':
            starts, i = [], 0
            s = item['text']
            while i < len(s):
                starts.append(item['base'] + t.off[i])
                j = s.find('\n', i)
                i = len(s) if j < 0 else j + 1
            l = ','.join(map(str, starts))
            out.append('%d %s %s' % (len(starts), l, l))
        info['moved'] = int(any(p > 0 for p in pos))
        return out, info
    def show_out(self, op, x):
        if op.split(':')[0] in ('snip', 'rest', 'take'):
            try:
                return repr(bytes.fromhex(x).decode())
            except ValueError:
                pass
        return x
    def interesting(self, info):
        return info.get('clones', 0) > 0 and info['moved'] and (info.get('prefix consumed', 0) > 0 or info.get('prefix refused', 0) > 0)

@register
class C17(StreamCheck):
    id = 'C17'
    technique = 'model-based testing: random histories of operations on string streams and their clones compared with a reference model'
    rule = 'Random texts (multi-byte characters, all line endings) and random histories of 3 to 40 operations on a stream and its clones. Non-trivial: streams cloned, moved, and a non-empty prefix consumed or one refused.'
    def kind(self, rng):
        return rng.choice(['str', 'str', 'string']), 0

@register
class C18(StreamCheck):
    id = 'C18'
    technique = 'model-based testing: random histories of operations on file-map streams compared with a reference model'
    rule = 'As C17, on file maps placed at random offsets; the lines registered in the file map are compared too, after the first and after a second stream. Non-trivial: streams cloned, moved, and a non-empty prefix consumed or one refused.'
    def kind(self, rng):
        return 'file', rng.choice([0, 0, 1, 5, 100, 4096, 1 << 20, 1 << 31])

@register
class C19(HistoryCheck):
    id = 'C19'
    technique = 'model-based testing: random histories of operations on parse states compared with a reference model'
    rule = 'Random texts and random histories of 3 to 45 operations on a parse state; after each operation all the fields are compared, illegal operations must be refused. Non-trivial: a restoration after an error, with errors reported at two different positions.'
    quick = (48, 6000)
    thorough = (160, 12000)
    min_nontrivial = 5000
    ITEMS = ['a', 'b', '.', '["0-9"]', 'é', 'end'] * 4 + ['A', 'aa', 'ab', '', '`', '` or `', '\\n', 'é' * 30, 'z' * 300] + ['t%d' % i for i in range(15)]
    def make_item(self, rng, k, tier):
        text = rand_text(rng)
        kind = rng.choice(['state', 'state', 'statenew', 'statefile'])
        m = Model(text)
        ops = []
        for _ in range(rng.choice([rng.randint(3, 12), rng.randint(8, 45)]) if rng.random() < 0.99 else rng.randint(100, 400)):
            op = self.make_op(rng, m)
            ops.append(op)
            m.step(op)
        return {'kind': kind, 'base': 0, 'text': text, 'ops': ops}
    def make_op(self, rng, m):
        if rng.random() < 0.06:       # any operation, legal or not
            o = rng.choice(['mark', 'restore:0', 'restoref:0', 'extract', 'unwrap', 'result', 'failured', 'success:7', 'unit', 'discard', 'failure'])
            # the result of a failed state which holds data is unspecified
            return 'extract' if o == 'result' and m.failed and m.data is not None else o
        if m.data is not None and m.failed:
            # an error reported on a state holding data: neither extraction nor restoration is allowed
            return rng.choice(['extract', 'restore:0', 'restoref:0', 'restoref:1', 'mark', 'failure', 'failured', 'success:%d' % rng.randint(0, 99), 'unit', 'unwrap', 'error:' + hexs(rng.choice(self.ITEMS))])
        if m.data is not None:
            if rng.random() < 0.25:
                return rng.choice(['next', 'prefix:' + hexs(rand_prefix(rng, m.t.s[m.cur:])), 'mark', 'restore:0', 'error:' + hexs(rng.choice(self.ITEMS))])
            return rng.choice(['extract', 'extract', 'extract', 'result', 'failure', 'success:%d' % rng.randint(0, 99), 'unwrap', 'unit'] + (['discard', 'discard'] if m.kind == 'U' else []))
        c = [(3, 'result'), (2, 'failure')]
        mark = rng.randrange(m.marks_n) if m.marks_n else 0
        if m.failed:
            if m.marks_n: c += [(14, 'restoref:%d' % mark), (3, 'restore:%d' % mark)]
            c += [(1, 'success:%d' % rng.randint(0, 99)), (1, 'failured')]
            c += [(3, 'error:' + hexs(rng.choice(self.ITEMS)))]
        else:
            c += [(8, 'mark'), (8, 'next'), (8, 'prefix:' + hexs(rand_prefix(rng, m.t.s[m.cur:]))), (14, 'error:' + hexs(rng.choice(self.ITEMS))),
                  (3, 'success:%d' % rng.randint(0, 99)), (2, 'unit')]
            if m.marks_n: c += [(4, 'restore:%d' % mark)]
        from gen import pick
        return pick(rng, c)
    def model(self, item):
        m = Model(item['text'], 1000 if item['kind'] == 'statefile' else 0)
        out = [m.step(op) for op in item['ops']]
        return out, {'restorations': m.restored, 'error positions': len(m.error_pos), 'refused': out.count('PANIC'), 'results': m.results}
    def interesting(self, info):
        return info['restorations'] > 0 and info['error positions'] > 1

class Model:
    """A parse state: U = ParseState<S, ()>, D = ParseState<S, u32>."""
    def __init__(self, text, base=0):
        self.t = Text(text)
        self.cur = self.far = 0
        self.exp = set()
        self.failed = False
        self.data = None
        self.kind = 'U'
        self.marks = []
        self.restored = 0
        self.results = 0
        self.error_pos = set()
    marks_n = property(lambda s: len(s.marks))

    def show(self):
        d = '-' if self.data is None else str(self.data)
        return '%d%d %d %d %s %s' % (self.failed, not self.failed, self.t.off[self.cur], self.t.off[self.far], ','.join(sorted(hexs(x) for x in self.exp)), d)

    def step(self, op):
        w = op.split(':')
        r = self.apply(w)
        return 'PANIC' if r is None else r + ' ' + self.show()

    def apply(self, w):
        t = self.t
        o = w[0]
        if o == 'next':
            r = t.curchar(self.cur)
            if self.cur < len(t.s): self.cur += 1
            return r
        if o == 'prefix':
            p = bytes.fromhex(w[1]).decode()
            if t.s.startswith(p, self.cur):
                self.cur += len(p)
                return 'true'
            return 'false'
        if o == 'error':
            self.failed = True
            self.error_pos.add(self.cur)
            x = bytes.fromhex(w[1]).decode()
            if self.cur > self.far: self.far, self.exp = self.cur, {x}
            elif self.cur == self.far: self.exp.add(x)
            return ''
        if o == 'success':
            self.failed, self.data, self.kind = False, int(w[1]), 'D'
            return ''
        if o == 'unit':
            self.failed, self.data, self.kind = False, '()', 'U'
            return ''
        if o in ('failure', 'failured'):
            self.failed, self.data, self.kind = True, None, 'D' if o == 'failured' else 'U'
            return ''
        if o == 'mark':
            if self.failed: return None
            self.marks.append(self.cur)
            return ''
        if o in ('restore', 'restoref'):
            if not self.marks: return 'none'
            if self.data is not None or (o == 'restoref' and not self.failed): return None
            self.cur = self.marks[int(w[1]) % len(self.marks)]
            self.failed, self.data, self.kind = False, None, 'U'
            self.restored += 1
            return ''
        if o == 'extract':
            if self.failed or self.data is None: return None
            d, self.data, self.kind = self.data, None, 'U'
            return str(d)
        if o == 'discard':
            if self.kind == 'U': self.data = None
            return ''
        if o == 'unwrap':
            return None if self.data is None else str(self.data)
        if o == 'result':
            self.results += 1
            if self.data is None:
                if not self.failed: return None
                return 'E ' + hexs('Error:\n\t' + error_text(t.s, self.far, self.exp))
            if self.cur == len(t.s): return 'F ' + hexs('Full match, got data `%s`.' % self.data)
            return 'P ' + hexs('Partial match, got data `%s`. It stopped because:\n\t' % self.data + error_text(t.s, self.far, self.exp))
        raise ValueError(o)
