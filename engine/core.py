"""Running checks: jobs in parallel, shrinking, replay files, known findings, evidence."""
import json, os, random, shutil, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing
import build
from build import VERIF, WORK

WORKERS = int(os.environ.get('VERIF_JOBS', '8'))

class Stats:
    """Counters of a run. `keys`: hashes of the distinct non-trivial cases."""
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counts = {}
        self.errors = []         # hangs and exhausted memory: no verdict

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, key):
        self.keys.add(hash64(key))

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(s)

    def merge(self, o):
        self.evaluations += o.evaluations
        self.keys |= o.keys
        self.samples += o.samples
        self.errors += o.errors
        for k, v in o.counts.items():
            if k.startswith('max '): self.counts[k] = max(self.counts.get(k, 0), v)
            else: self.add(k, v)

def hash64(x):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(x).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')

class Check:
    """One property. Items are JSON-able dicts; evaluate() judges a list of items."""
    id = None
    technique = ''
    level = 'exploration'
    rule = ''
    assumptions = []
    quick = (8, 20)           # number of jobs, items per job
    thorough = (64, 40)
    min_nontrivial = 50
    budget = {'quick': 420, 'thorough': 3600}

    def make_item(self, rng, k, tier):
        raise NotImplementedError

    def evaluate(self, art, items, workdir, stats=None, shrinking=False):
        """-> list of None (held) | message (violated), one per item."""
        raise NotImplementedError

    def shrinks(self, item, msg):
        """Smaller items to try, best first."""
        return []

    def describe(self, item):
        return json.dumps(item, ensure_ascii=False)

    def cost(self, item):
        return len(json.dumps(item))

    def fixed_items(self, tier):
        """Items always evaluated, in addition to the generated ones."""
        return []

def newdir(tag):
    d = os.path.join(WORK, 'run-%d-%s' % (os.getpid(), tag))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

def job(check, art, tier, seed, k, n):
    st = Stats()
    rng = random.Random('%s:%s:%s:%d' % (seed, check.id, tier if tier == 'thorough' else 'quick', k))
    items = []
    if k == 0:
        items += check.fixed_items(tier)
    for j in range(n):
        it = check.make_item(rng, k * n + j, tier)
        if it is not None:
            items.append(it)
    d = newdir('%s-%d' % (check.id, k))
    del build.NO_ANSWER[:]
    try:
        verdicts = check.evaluate(art, items, d, st)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    st.errors = [x[:1500] for x in build.NO_ANSWER[:3]]
    return st, [(it, v) for it, v in zip(items, verdicts) if v]

def safe_job(args):
    try:
        return ('ok', job(*args))
    except Exception:
        return ('error', traceback.format_exc())

def shrink(check, art, item, msg, deadline, log):
    d = newdir(check.id + '-shrink')
    tried = set([json.dumps(item, sort_keys=True)])
    try:
        for rnd in range(60):
            if time.time() > deadline: break
            cands = []
            for c in check.shrinks(item, msg):
                k = json.dumps(c, sort_keys=True)
                if k in tried or check.cost(c) >= check.cost(item): continue
                tried.add(k)
                cands.append(c)
                if len(cands) >= 48: break
            if not cands: break
            vs = check.evaluate(art, cands, d, None, True)
            good = [(check.cost(c), i) for i, (c, v) in enumerate(zip(cands, vs)) if v and same_kind(v, msg)]
            if not good:
                if len(cands) < 48: break
                continue
            _, i = min(good)
            item, msg = cands[i], vs[i]
    except Exception:
        log('shrinking stopped: ' + traceback.format_exc(limit=2))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return item, msg

def same_kind(a, b):
    return a.split(':')[0] == b.split(':')[0]

# ------------------------------------------------------------------ known findings
def findings(pid):
    """Entries `finding: property=<id> replay=<file> <what>` of known_findings.txt."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            if l.startswith('finding:'):
                w = l[len('finding:'):].strip().split(' ', 2)
                kv = dict(x.split('=', 1) for x in w[:2])
                if kv.get('property') == pid:
                    out.append((os.path.join(VERIF, kv['replay']), w[2].strip()))
    return out

def canonical(item):
    return json.dumps(item, sort_keys=True)

# ------------------------------------------------------------------ main
def run(check, tier, seed):
    t0 = time.time()
    try:
        art = build.prepare()
    except build.BuildFailure as e:
        print(str(e)[-4000:])
        print('check %s: cannot build the tree' % check.id)
        return 2
    known = []
    for path, what in findings(check.id):
        it = json.load(open(path))['item']
        known.append((it, what))
    n_jobs, per = getattr(check, tier)
    st = Stats()
    found = []
    errors = []
    done = 0
    deadline = t0 + check.budget[tier]
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(max_workers=WORKERS, mp_context=ctx) as ex:
        pending = set()
        k = 0
        while k < n_jobs or pending:
            while k < n_jobs and len(pending) < WORKERS * 2 and time.time() < deadline and len(found) < 6:
                pending.add(ex.submit(safe_job, (check, art, tier, seed, k, per)))
                k += 1
            if not pending: break
            fut = next(as_completed(pending))
            pending.discard(fut)
            try:
                kind, r = fut.result()
            except Exception as e:
                errors.append(repr(e))
                continue
            if kind == 'error':
                errors.append(r)
                continue
            done += 1
            st.merge(r[0])
            found += r[1]
    # known findings
    suppressed = set()
    for it, what in known:
        suppressed.add(canonical(it))
    found = [(it, m) for it, m in found if canonical(it) not in suppressed]
    if known:
        d = newdir(check.id + '-known')
        vs = check.evaluate(art, [it for it, _ in known], d)
        shutil.rmtree(d, ignore_errors=True)
        for (it, what), v in zip(known, vs):
            if v: print('KNOWN-FINDING: property=%s %s' % (check.id, what))
    violations = 0
    if found:
        os.makedirs(os.path.join(WORK, 'replays'), exist_ok=True)
        found.sort(key=lambda x: check.cost(x[0]))
        kinds = set()
        for it, m in found:
            kind = m.split(':')[0]
            if kind in kinds and violations: continue
            kinds.add(kind)
            if len(kinds) > 3: break
            it2, m2 = shrink(check, art, it, m, min(time.time() + 90, t0 + 780), print)
            if canonical(it2) in suppressed: continue
            violations += 1
            path = os.path.join(WORK, 'replays', '%s-%d.json' % (check.id, violations))
            with open(path, 'w') as f:
                json.dump({'property': check.id, 'message': m2, 'item': it2}, f, indent=1, ensure_ascii=False)
            print('%s: %s' % (check.id, m2))
            print(check.describe(it2))
            print('VIOLATION property=%s replay=%s' % (check.id, path))
    rc = 1 if violations else 0
    errors += st.errors
    for e in errors[:3]: print('ERROR in a job:\n' + e)
    if errors and not violations: rc = 2
    if rc == 0 and len(st.keys) < check.min_nontrivial:
        print('check %s: only %d non-trivial cases' % (check.id, len(st.keys)))
        rc = 2
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': {'evaluations': st.evaluations, 'distinct_nontrivial': len(st.keys), 'rule': check.rule,
                       'samples': st.samples[:6], 'jobs': done, 'jobs_planned': n_jobs, 'counts': st.counts},
          'assumptions': check.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s: %d cases, %d distinct non-trivial, %d/%d jobs, %.1f s, %s' % (
        check.id, st.evaluations, len(st.keys), done, n_jobs, time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'error'}[rc]))
    if os.environ.get('VERIF_VERBOSE'): print(json.dumps(st.counts))
    return rc

def replay(check, path):
    art = build.prepare()
    it = json.load(open(path))['item']
    d = newdir(check.id + '-replay')
    try:
        v = check.evaluate(art, [it], d)[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(check.describe(it))
    if v:
        print('%s: %s' % (check.id, v))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    print('%s: held on this replay' % check.id)
    return 0
