#!/usr/bin/env python3
"""Tries the planted bugs of /verif/seeded in a scratch copy, bound over /repo and /verif in a private mount namespace.

    seed.py [--slot N] [--checks C01,C02|all|none] [--quickdemo] ID...

For each one: the patch applies to original lines only, the tree builds, the stable tests pass, the demonstration passes
without the patch and fails with it; then the checks given (by default the one of its property) are run on the patched tree."""
import json, os, re, subprocess, sys, time

SX = '/tmp/sx'
SEEDED = os.environ.get('SEEDED', '/verif/seeded')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def inside(slot, cmd, timeout=1800):
    d = '%s/slot%s' % (SX, slot)
    full = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s' % (d, d, cmd)
    try:
        return sh(['unshare', '-Urm', 'bash', '-c', full], timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -1; r.stdout = 'TIMEOUT ' + str((e.stdout or b'')[-300:])
        return r

def setup(slot):
    d = '%s/slot%s' % (SX, slot)
    if not os.path.exists(d + '/repo'):
        os.makedirs(d)
        sh(['cp', '-a', '/repo', d + '/repo'])
        os.makedirs(d + '/verif')
    head = sh(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout.strip()
    sh(['git', '-C', d + '/repo', 'fetch', '-q', '/repo', 'HEAD'])
    print(sh(['git', '-C', d + '/repo', 'checkout', '-q', '-f', head]).stdout, end='')
    sh(['rsync', '-a', '--delete', '--exclude', 'seeded', '--exclude', 'work', '/verif/', d + '/verif/']) if sh(['which', 'rsync']).returncode == 0 else \
        sh(['bash', '-c', 'cd /verif && for f in check.sh setup.sh engine support tools properties.jsonl MANIFEST.json known_findings.txt target; do rm -rf "%s/verif/${f:?}"; cp -a "$f" %s/verif/; done' % (d, d)])
    return d

def original_lines(d, patch):
    """The lines the patch takes away (or is inserted next to) come from the base commit."""
    base = sh(['git', '-C', d + '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
    text = open(patch).read()
    removed = 0
    for f in re.split(r'^diff --git ', text, flags=re.M)[1:]:
        path = re.search(r'^--- a/(.*)$', f, re.M).group(1)
        blame = sh(['git', '-C', d + '/repo', 'blame', '-s', '-l', 'HEAD', '--', path]).stdout.splitlines()
        for m in re.finditer(r'^@@ -(\d+)(?:,\d+)? .*\n((?:[ +\-\\].*\n?|\n)*)', f, re.M):
            n = int(m.group(1))
            for line in m.group(2).splitlines():
                if line.startswith('-'):
                    removed += 1
                    if not blame[n - 1].lstrip('^').startswith(base[:30]):
                        print('   line of a later commit: %s:%d %s' % (path, n, line))
                if not line.startswith('+') and not line.startswith('\\'):
                    n += 1
    if removed == 0:
        print('   no original line changed')

def main():
    args = sys.argv[1:]
    slot, checks, ids, nodemo = '0', None, [], False
    while args:
        a = args.pop(0)
        if a == '--slot': slot = args.pop(0)
        elif a == '--checks': checks = args.pop(0)
        elif a == '--nodemo': nodemo = True
        else: ids.append(a)
    d = setup(slot)
    baseline = json.load(open('/opt/vp/BASELINE.json'))['stable']
    allp = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    for i in ids:
        s = '%s/%s' % (SEEDED, i)
        meta = json.load(open(s + '/meta.json'))
        print('== %s (%s)' % (i, meta['property']), flush=True)
        demo = '%s/slot%s/demo' % (SX, slot)
        sh(['rm', '-rf', demo]); sh(['cp', '-a', s, demo])
        for f in ('patch.diff', 'meta.json'):
            os.remove(demo + '/' + f)
        if not nodemo:
            t = time.time()
            r = inside(slot, 'bash %s/demo.sh' % demo, 320)
            print('   demo, unchanged: rc %d (%.0fs)%s' % (r.returncode, time.time() - t, '' if r.returncode == 0 else '  WRONG\n' + r.stdout[-2500:]), flush=True)
        r = sh(['git', '-C', d + '/repo', 'apply', s + '/patch.diff'])
        if r.returncode != 0:
            print('   patch does not apply: ' + r.stdout); continue
        try:
            if not nodemo:
                original_lines(d, s + '/patch.diff')
                r = inside(slot, 'bash /opt/vp/build.sh')
                if r.returncode != 0:
                    print('   BUILD FAILS\n' + r.stdout[-1500:]); continue
                out = '%s/slot%s/o.json' % (SX, slot)
                inside(slot, 'bash /opt/vp/test.sh ' + out)
                passed = set(json.load(open(out))['passed'])
                bad = [t for t in baseline if t not in passed]
                print('   tests: %d/%d%s' % (len(baseline) - len(bad), len(baseline), '  WRONG %s' % bad[:5] if bad else ''), flush=True)
                r = inside(slot, 'bash %s/demo.sh' % demo, 320)
                print('   demo, patched: rc %d%s' % (r.returncode, '\n      ' + '\n      '.join(r.stdout.strip().splitlines()[-3:]) if r.returncode else '  WRONG'), flush=True)
            cs = [] if checks == 'none' else allp if checks == 'all' else checks.split(',') if checks else [meta['property']]
            for c in cs:
                t = time.time()
                r = inside(slot, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh %s' % c, 950)
                lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                verdict = 'caught' if r.returncode == 1 and any('property=%s ' % c in l for l in lines) else 'quiet' if r.returncode == 0 else 'ERROR rc %d' % r.returncode
                print('   %s: %s (%.0fs) %s' % (c, verdict, time.time() - t, r.stdout.strip().splitlines()[-1][:200] if verdict != 'quiet' and r.stdout.strip() else ''), flush=True)
        finally:
            sh(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])

main()
