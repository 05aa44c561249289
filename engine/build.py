"""Building /repo and the support crate, compiling batches of generated grammars, running the programs."""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OAK_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
WORK = os.path.join(VERIF, 'work')
RUSTC_TIMEOUT = 150

# what did not answer within the limits (time, memory): reported as errors of the check, never as violations
NO_ANSWER = []

class BuildFailure(Exception):
    pass

def toolchain_env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE, env=e).stdout
    for kv in out.decode('utf-8', 'replace').split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            if k not in ('_', 'SHLVL', 'PWD', 'STAGE'):
                e[k] = v
    e['CARGO_TARGET_DIR'] = TARGET
    e['CARGO_INCREMENTAL'] = '0'
    e['RUST_BACKTRACE'] = '0'
    e.setdefault('RUSTUP_TOOLCHAIN', '1.80.0')
    e['RUSTC_BOOTSTRAP'] = '1'
    return e

_env = None
def env():
    global _env
    if _env is None:
        _env = toolchain_env()
    return _env

def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'runtime', 'src'), os.path.join(VERIF, 'support', 'src')]
    files = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'runtime', 'Cargo.toml'), os.path.join(VERIF, 'support', 'Cargo.toml')]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fd: h.update(fd.read())
        except OSError:
            h.update(b'missing')
        h.update(b'\0')
    return h.hexdigest()

class Artifacts:
    def __init__(self, d):
        self.__dict__.update(d)

def prepare():
    """Builds oak, oak_runtime and support from the current tree; returns the paths of the artifacts."""
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(TARGET, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        stamp = os.path.join(TARGET, 'stamp.json')
        try:
            s = json.load(open(stamp))
            if s['hash'] == h and all(os.path.exists(p) for p in s['paths'].values()):
                return Artifacts(s['paths'])
        except (OSError, ValueError, KeyError):
            pass
        if os.path.exists(stamp):
            os.remove(stamp)
        cwd = os.path.join(VERIF, 'support')
        # cargo looks at modification times only: forget what was built from another tree.
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'oak', '-p', 'oak_runtime', '-p', 'support'],
                       cwd=cwd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json'], cwd=cwd, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        paths = {}
        rendered = []
        for line in r.stdout.decode('utf-8', 'replace').splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact':
                n = m['target']['name']
                if n in ('oak', 'oak_runtime', 'support'):
                    for f in m['filenames']:
                        if f.endswith('.so') or f.endswith('.rlib'):
                            paths[n] = f
                if n == 'modelrt' and m.get('executable'):
                    paths['modelrt'] = m['executable']
            elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                rendered.append(m['message'].get('rendered') or m['message']['message'])
        if r.returncode != 0 or len([k for k in ('oak', 'oak_runtime', 'support') if k in paths]) != 3:
            raise BuildFailure('cargo build failed\n' + '\n'.join(rendered)[-3000:] + r.stderr.decode('utf-8', 'replace')[-2000:])
        with open(stamp, 'w') as f:
            json.dump({'hash': h, 'paths': paths}, f)
        return Artifacts(paths)

# ------------------------------------------------------------------ compiling
def limits(mem, cpu):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    return f

def run_limited(cmd, cwd=None, mem=6 << 30, cpu=None, wall=None, stdin=None, stdout=None, extra_env=None):
    """-> (returncode or None when stopped by the wall clock limit, stdout, stderr)"""
    e = env()
    if extra_env:
        e = dict(e, **extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=stdin or subprocess.DEVNULL,
                         stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(mem, cpu))
    try:
        out, err = p.communicate(timeout=wall)
        return p.returncode, out or b'', err or b''
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out or b'', err or b''

class Diag:
    """One diagnostic of rustc."""
    def __init__(self, m):
        self.level = m['level']
        self.text = m['message']
        self.code = (m.get('code') or {}).get('code')
        self.children = [(c['level'], c['message']) for c in m.get('children', [])]
        self.lines = []        # (primary, first line, first column, last line, last column) in the file, macros expanded to their call
        self.spans = m['spans']
        for s in m['spans']:
            own = []
            x = s
            while x is not None:
                own.append(x)
                x = x['expansion']['span'] if x.get('expansion') else None
            for x in own:
                self.lines.append((s['is_primary'], x['line_start'], x['column_start'], x['line_end'], x['column_end'], x['file_name']))
        self.in_macro = any(s.get('expansion') for s in m['spans'])

    def panic(self):
        return 'proc macro panicked' in self.text or 'proc-macro panicked' in self.text

    def __repr__(self):
        return '%s: %s%s' % (self.level, self.text, ''.join(' | %s: %s' % c for c in self.children if c[0] in ('help', 'note'))[:300])

def rustc(art, src, out, metadata=False, warnings=False, crate_type='bin', wall=RUSTC_TIMEOUT, extra=(), cpu=None):
    cmd = ['rustc', '--edition', '2021', '--error-format=json', '-C', 'debuginfo=0', '-C', 'opt-level=0', '--crate-type', crate_type,
           '-L', 'dependency=' + os.path.dirname(art.support), '-L', 'dependency=' + os.path.join(TARGET, 'debug', 'deps'),
           '--extern', 'oak=' + art.oak, '--extern', 'oak_runtime=' + art.oak_runtime, '--extern', 'support=' + art.support, '-o', out]
    if metadata:
        cmd += ['--emit=metadata']
    if not warnings:
        cmd += ['-A', 'warnings']
    else:
        cmd += ['-A', 'unused', '-A', 'deprecated', '-A', 'non_snake_case', '-A', 'non_camel_case_types']
    cmd += list(extra)
    rc, o, e = run_limited(cmd + [src], wall=wall, cpu=cpu or wall)
    diags = []
    crash = ''
    for line in e.decode('utf-8', 'replace').split('\n'):
        if line.startswith('{'):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if 'message' in m and 'spans' in m:
                if m['message'].startswith('extern location for'): raise Exception('the artifacts of the build disappeared')
                diags.append(Diag(m))
        elif line.strip():
            crash = (crash + line + '\n')[:2000]
    return rc, diags, crash, o

def expanded(art, src, n, wall=RUSTC_TIMEOUT, warnings=False, cpu=None):
    """-> (return code, diagnostics, crash, {i: expansion of the module m<i>}) for the n modules of the file `src`."""
    out = src + '.expanded'
    if os.path.exists(out): os.remove(out)
    rc, diags, crash, o = rustc(art, src, out, warnings=warnings, wall=wall, cpu=cpu, extra=('-Zunpretty=expanded',))
    text = o.decode('utf-8', 'replace')
    if os.path.exists(out):
        with open(out, encoding='utf-8', errors='replace') as f: text += f.read()
        os.remove(out)
    parts = re.split(r'(?m)^mod m(\d+) \{', text)
    mods = {int(parts[i]): parts[i + 1] for i in range(1, len(parts), 2)}
    if rc == 0 and len(mods) < n:
        raise Exception('%d modules in an expansion instead of %d' % (len(mods), n))
    return rc, diags, crash, mods

class Batch:
    """Compiles a list of modules (texts defining `mod NAME { ... pub fn run }`) in one crate; drops those with errors.
    After compile(): self.errors[i] = None | list of Diag | 'HANG' | 'CRASH ...'; self.binary; self.index[i]."""
    def __init__(self, art, workdir, modules, main=True, metadata=False, warnings=False, prelude='', keep_ok_diags=False, extra=()):
        self.art, self.dir, self.modules = art, workdir, modules
        self.main, self.metadata, self.warnings = main, metadata, warnings
        self.prelude = prelude
        self.errors = [None] * len(modules)
        self.diags = [[] for _ in modules]
        self.binary = None
        self.extra = extra

    def assemble(self, idx):
        lines = []
        ranges = {}
        text = ['#![allow(warnings)]' if not self.warnings else '', self.prelude]
        cur = sum(t.count('\n') + 1 for t in text)
        for i in idx:
            m = self.modules[i]
            n = m.count('\n') + 1
            ranges[i] = (cur + 1, cur + n)
            cur += n
            text.append(m)
        if self.main:
            text.append('fn main() { support::serve(&[%s]) }' % ', '.join('m%d::run' % i for i in idx))
        else:
            text.append('fn main() {}')
        return '\n'.join(text), ranges

    def attempt(self, idx, tag):
        src = os.path.join(self.dir, 'b%s.rs' % tag)
        out = os.path.join(self.dir, 'b%s' % tag)
        text, ranges = self.assemble(idx)
        with open(src, 'w') as f:
            f.write(text)
        rc, diags, crash, o = rustc(self.art, src, out, self.metadata, self.warnings, wall=RUSTC_TIMEOUT if len(idx) > 1 else 40, extra=self.extra)
        per = {i: [] for i in idx}
        stray = []
        for d in diags:
            hit = None
            for pr in (True, False):
                for (p, l0, c0, l1, c1, fn) in d.lines:
                    if p == pr and fn == src:
                        for i in idx:
                            a, b = ranges[i]
                            if a <= l0 <= b:
                                hit = i
                                break
                    if hit is not None: break
                if hit is not None: break
            if hit is None:
                if d.level == 'error' and not d.text.startswith('aborting due to'):
                    stray.append(d)
            else:
                d.base = ranges[hit][0]
                per[hit].append(d)
        return rc, per, stray, crash, out, o

    def compile(self):
        idx = list(range(len(self.modules)))
        self.stdout = ''
        for rnd in range(9):
            if not idx:
                return self
            rc, per, stray, crash, out, o = self.attempt(idx, str(rnd))
            if rc == 0:
                for i in idx: self.diags[i] = per[i]
                self.binary = out
                self.stdout = o.decode('utf-8', 'replace')
                self.order = {i: k for k, i in enumerate(idx)}
                return self
            bad = [i for i in idx if any(d.level == 'error' for d in per[i])]
            if not bad:
                # a crash, a hang, or an error that cannot be located: look at each module alone
                for i in list(idx):
                    rc, per, stray, crash, out, o = self.attempt([i], 's')
                    if rc == 0: continue
                    idx.remove(i)
                    if rc is None or rc in (-signal.SIGXCPU, -signal.SIGKILL) or 'memory allocation' in crash:
                        self.errors[i] = 'HANG'
                        NO_ANSWER.append('rustc does not answer on\n' + self.modules[i])
                    elif any(d.level == 'error' for d in per[i]): self.errors[i] = [d for d in per[i] if d.level == 'error']
                    elif stray: self.errors[i] = stray
                    else: self.errors[i] = 'CRASH %s %s' % (rc, crash[:300])
                continue
            for i in bad:
                self.errors[i] = [d for d in per[i] if d.level == 'error']
                self.diags[i] = per[i]
                idx.remove(i)
        for i in idx:
            self.errors[i] = 'HANG'
            NO_ANSWER.append('could not be compiled with the others\n' + self.modules[i])
        return self

# ------------------------------------------------------------------ running
def hx(s):
    return s.encode().hex()

def unhx(s):
    return bytes.fromhex(s).decode('utf-8', 'replace')

class Obs:
    """What was observed of one call of a generated function."""
    __slots__ = ('kind', 'ok', 'bad', 'cur', 'far', 'exp', 'data', 'trace', 'res', 'debug', 'fuel', 'msg')
    def __init__(self, line):
        self.msg = None
        if '\t' not in line:
            self.kind = line.split(' ')[0] or 'EMPTY'         # FUEL PANIC HANG CRASH
            w = line.split(' ', 1)
            self.msg = unhx(w[1]) if self.kind == 'PANIC' and len(w) > 1 else line
            return
        w = line.split('\t')
        self.kind = 'OBS'
        self.ok = w[0][0] == '1'
        self.bad = w[0][1] == '1'
        self.cur, self.far = int(w[1]), int(w[2])
        self.exp = sorted(set(unhx(x[1:]) for x in w[3].split(','))) if w[3] else []
        self.data = None if w[4] == '-' else w[4][1:]
        self.trace = w[5].split('|') if w[5] else []
        self.res = w[6][0]
        self.debug = unhx(w[6][1:])
        self.fuel = int(w[7])

    def brief(self):
        if self.kind != 'OBS':
            return '%s %s' % (self.kind, self.msg or '')
        return '%s at %d, farthest %d %r, value %s' % ({'F': 'full match', 'P': 'partial match', 'E': 'failure'}.get(self.res, 'panic: ' + self.debug), self.cur, self.far, self.exp, self.data)

    def key(self):
        if self.kind != 'OBS': return (self.kind,)
        return (self.ok, self.bad, self.cur, self.far, tuple(self.exp), self.data, tuple(self.trace), self.res, self.debug)

BIG = 2 ** 63

def run_cases(binary, cases, workdir, cpu=30, wall=150, tag='run', stack=256):
    """cases: (module, function, fuel, skip, again, input). -> list of Obs (kind HANG/CRASH for the culprit)."""
    res = []
    pos = 0
    inp = os.path.join(workdir, tag + '.in')
    outp = os.path.join(workdir, tag + '.out')
    bad = 0
    while pos < len(cases):
        with open(inp, 'w') as f:
            for m, fun, fuel, skip, again, s in cases[pos:]:
                f.write('%d %d %d %d %d %s\n' % (m, fun, fuel, skip, 1 if again else 0, hx(s)))
        with open(inp) as fi, open(outp, 'wb') as fo:
            rc, _, err = run_limited([binary], mem=3 << 30, cpu=cpu, wall=wall, stdin=fi, stdout=fo, extra_env={'OAK_STACK_MB': str(stack)})
        lines = open(outp, encoding='utf-8', errors='replace').read().split('\n')
        n = len(lines) - 1            # complete lines
        for l in lines[:n]:
            res.append(Obs(l))
        pos += n
        if pos < len(cases):
            if rc is None or rc == -signal.SIGXCPU or rc == -signal.SIGKILL:
                if n > 0: continue        # the limit is for the whole batch: run this case again, alone with what follows
                res.append(Obs('HANG'))
                NO_ANSWER.append('no answer on the case %r of %s' % (cases[pos], binary))
            elif rc == 0: res.append(Obs('CRASH no answer'))
            else: res.append(Obs('CRASH %s' % rc))
            pos += 1
            bad += 1
            if bad >= 4:
                while pos < len(cases):
                    res.append(Obs('SKIPPED'))
                    pos += 1
    return res
