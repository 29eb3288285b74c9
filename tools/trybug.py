#!/usr/bin/env python3
"""trybug.py ID..: apply a planted bug to a copy of /repo (TB, /tmp/tb), build, run the tests, its demo and its property's check.
   -n: no check   -c C01,C02: these checks instead   -a: all checks"""
import glob, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.environ.get('TB', '/tmp/tb')
args = sys.argv[1:]
nocheck, allc, only = False, False, None
while args and args[0][0] == '-':
    a = args.pop(0)
    if a == '-n': nocheck = True
    if a == '-a': allc = True
    if a == '-c': only = args.pop(0).split(',')

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def tests():
    sh('bash %s.vp/test.sh %s.json' % (T, T))
    d = json.load(open(T + '.json'))
    return d['passed'], d['failed']

def fresh():
    if not os.path.isdir(T):
        sh('cp -a /repo %s' % T)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (T, T))
    os.makedirs(T + '.vp', exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        open(T + '.vp/' + f, 'w').write(open('/opt/vp/' + f).read().replace('/opt/vp/build.sh', T + '.vp/build.sh').replace('/repo', T).replace('/tmp/out.txt', '/tmp/out.txt'))
        sh("sed -i 's#/repo/#%s/#g' _build/config.status _build/Makefile _build/*/Makefile" % T, cwd=T)

fresh()
for i in args:
    d = os.path.join(V, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    sh('bash %s.vp/build.sh' % T + '')
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=T)
    ok = r.returncode == 0
    if not ok: print(i, 'DEMO FAILS ON THE CLEAN TREE', r.stdout[-600:])
    p = sh('git -C %s' % T + ' apply %s/patch.diff' % d)
    if p.returncode: print(i, 'DOES NOT APPLY', p.stdout); continue
    try:
        ps, fs = tests()
        if len(ps) < 70: print(i, 'TESTS FAIL', fs, len(ps))
        r = sh('timeout 300 bash %s/demo.sh' % d, cwd=T)
        if r.returncode == 0: print(i, 'DEMO PASSES WITH THE BUG')
        res = []
        cs = [] if nocheck else only or ([f[-6:-3].upper() for f in sorted(glob.glob(V + '/checks/c*.py'))] if allc else [m['property']])
        for c in cs:
            q = sh('BIC_REPO=%s timeout 900 python3 checks/%s.py' % (T, c.lower()), cwd=V)
            w = re.findall(r'  case: .*|  wrong: .*', q.stdout)
            res.append('%s:%s%s' % (c, {0: 'quiet', 1: 'CAUGHT'}.get(q.returncode, 'ERROR %s %s' % (q.returncode, q.stdout[-500:])), ' [' + ' | '.join(x.strip()[:160] for x in w[:2]) + ']' if q.returncode == 1 and len(cs) == 1 else ''))
        print(i, m['property'], 'ok' if ok and r.returncode and len(ps) >= 70 else 'BAD', ' '.join(res), flush=True)
    finally:
        sh('git -C %s' % T + ' checkout -- .')
sh('bash %s.vp/build.sh' % T + '')
