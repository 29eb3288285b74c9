"""Bounded exhaustive exploration of the implementation against a model.

A check enumerates `groups': lists of cases that run in one program (usually
independent fragments, so that the cost of starting a program is shared). Every
case has a model prediction. When a group doesn't behave as predicted each of
its cases runs alone, twice, and a case that disagrees both times is a
violation; if only the whole group disagrees, the group is the case.
"""
import array, hashlib, json, multiprocessing as mp, multiprocessing.connection, os, re, shutil, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
NPROC = int(os.environ.get('BIC_NPROC', '8'))


def load_known(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.strip():
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    r.append(d)
    return r


class Check:
    pid = None              # property
    level = 'model_checking'
    variant = 'plain'
    env = {}
    rule = ''
    assumptions = []
    space = ''              # what is enumerated, for the evidence
    max_violations = 12
    # every n-th group is also run through the plain program and real gcc -E
    conformance_every = 37
    time_budget = {'quick': 240, 'thorough': 3600}

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.deep = tier == 'thorough'

    # -- to be defined by a check
    def groups(self):
        """Enumerate lists of cases."""
        raise NotImplementedError

    def request(self, cases):
        """(kind, args): what to run. kind is 'script' or 'session'."""
        raise NotImplementedError

    def judge(self, cases, res):
        """None, or what is wrong."""
        raise NotImplementedError

    def stats(self, cases):
        """(states, transitions) of the model that the cases cover."""
        return len(cases), len(cases)

    def key(self, case):
        """Identifies a case (for samples, replays and known findings)."""
        return str(case)

    def setup(self, scratch):
        """Called once before exploring, in the parent."""

    # -- helpers
    def execute(self, h, cases):
        kind, kw = self.request(cases)
        return getattr(h, kind)(**kw)

    def execute_real(self, h, cases):
        """The same through bic itself; None if the case has no such form."""
        kind, kw = self.request(cases)
        if kind != 'script':
            return None
        kw = dict(kw)
        for k in ('gc', 'perturb', 'mem', 'cwd'):
            kw.pop(k, None)
        kw.pop('timeout', None)
        return h.real_script(**kw)


_H = None


def _worker(q, w, check, n, d, deadline):
    global _H
    try:
        _H = h = run.Harness(d, check.variant)
        h.env = check.env
        if os.environ.get('BIC_GCC'):
            check.execute = lambda h, cases: by_gcc(check, h, cases)
            check.conformance_every = 0
        st = dict(groups=0, cases=0, states=0, transitions=0, conf=0, runs=0,
                  skipped=0, samples=[], bad=[], keys=set())
        for i, cases in enumerate(check.groups()):
            if i % n != w:
                continue
            if time.time() > deadline:
                st['skipped'] += 1
                continue
            cases = list(cases)
            st['groups'] += 1
            st['cases'] += len(cases)
            st['keys'].update(hash(check.key(c)) for c in cases)
            s, t = check.stats(cases)
            st['states'] += s
            st['transitions'] += t
            if len(st['samples']) < 1 or (i % 997 == 0 and len(st['samples']) < 4):
                st['samples'].append(check.key(cases[len(cases) // 2]))
            res = check.execute(h, cases)
            st['runs'] += 1
            why = check.judge(cases, res)
            if why is None:
                if check.conformance_every and i % check.conformance_every == check.conformance_every // 2:
                    real = check.execute_real(h, cases)
                    if real is not None:
                        why = check.judge(cases, real)
                        if why is not None:
                            real = check.execute_real(h, cases)
                            why = check.judge(cases, real)
                        st['conf'] += 1
                        if why is not None:
                            st['bad'].append((check.key(cases[0]) + ' (and %d more, real program)' % (len(cases) - 1), why,
                                              describe(check, cases), repr(real)))
                continue
            # isolate
            found = False
            if len(st['bad']) >= check.max_violations:
                st['bad'].append((check.key(cases[0]), why, '', ''))
                continue
            if len(cases) > 1:
                for c in cases:
                    r1 = check.execute(h, [c])
                    w1 = check.judge([c], r1)
                    if w1 is None:
                        continue
                    r2 = check.execute(h, [c])
                    w2 = check.judge([c], r2)
                    if w2 is None:
                        continue
                    found = True
                    st['bad'].append((check.key(c), w2, describe(check, [c]), repr(r2)))
                    if len(st['bad']) >= check.max_violations:
                        break
            if not found:
                r2 = check.execute(h, cases)
                w2 = check.judge(cases, r2)
                if w2 is None:      # not reproducible: retry a few times
                    ws = [check.judge(cases, check.execute(h, cases)) for _ in range(4)]
                    w2 = next((x for x in ws if x), None)
                if w2 is not None:
                    k = check.key(cases[0]) + (' (and %d more in one program)' % (len(cases) - 1) if len(cases) > 1 else '')
                    st['bad'].append((k, w2, describe(check, cases), repr(r2)))
        h.close()
        st['keys'] = array.array('q', st['keys']).tobytes()
        q.send((w, st, None))
    except BaseException:
        q.send((w, None, traceback.format_exc()))


def run_workers(f, args, tries=4):
    """f(connection, w, *args) in NPROC processes; yield what each sends.  If the
    system has ended one, its share is done again."""
    ctx = mp.get_context('fork')
    run = {}

    def start(w, n):
        for k in range(60):
            try:
                r, s = ctx.Pipe(False)
                p = ctx.Process(target=f, args=(s, w) + args)
                p.start()
                s.close()
                run[r] = (p, w, n)
                return
            except OSError:
                if k == 59:
                    raise
                time.sleep(1)
    for w in range(NPROC):
        start(w, 1)
    try:
        while run:
            for r in mp.connection.wait(list(run)):
                p, w, n = run.pop(r)
                try:
                    v = r.recv()
                except EOFError:
                    v = (w, None, 'worker %d ended without a result' % w)
                r.close()
                p.join()
                if v[2] and n < tries and (v[2].startswith('worker') or 'Errno 11' in v[2] or "can't start new thread" in v[2]):
                    time.sleep(2 * n)
                    start(w, n + 1)
                    continue
                yield v
    finally:
        for p, w, n in run.values():
            p.terminate()


def by_gcc(check, h, cases):
    """For the development of a model: what the compiler makes of the cases."""
    import subprocess
    kind, kw = check.request(cases)
    p = os.path.join(h.scratch, 'g')
    with open(p + '.c', 'w', encoding='latin-1') as f:
        f.write(kw['text'])
    r = run.Result()
    r.timeout, r.sig, r.allocs, r.collections = False, 0, 0, 0
    c = subprocess.run(['gcc', '-std=gnu17', '-w', '-O0', '-o', p, p + '.c', '-lm'], stderr=subprocess.PIPE)
    if c.returncode:
        r.rc, r.out, r.err = 99, '', c.stderr.decode()
        return r
    x = subprocess.run([p, *kw.get('args', ())], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    r.rc, r.out, r.err = x.returncode, x.stdout.decode('latin-1'), x.stderr.decode('latin-1')
    return r


def describe(check, cases):
    kind, kw = check.request(cases)
    out = []
    if 'text' in kw:
        out.append(kw['text'])
    for k, v in kw.items():
        if k != 'text':
            out.append('// %s = %r' % (k, v))
    return '\n'.join(out)


def main(cls):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    check = cls(tier, seed)
    try:
        d = build.build(check.variant)
        for v in getattr(check, 'extra_variants', ()):
            build.build(v)
    except build.BuildError as e:
        print('The tree does not build:\n%s' % e)
        return 2
    check.builddir = d
    check.scratch = os.path.join(VERIF, 'out', check.pid)
    shutil.rmtree(check.scratch, ignore_errors=True)
    os.makedirs(check.scratch)
    check.setup(check.scratch)
    deadline = t0 + check.time_budget[tier]
    tot = dict(groups=0, cases=0, states=0, transitions=0, conf=0, runs=0, skipped=0)
    samples, bad, keys = [], [], set()
    for w, st, err in run_workers(_worker, (check, NPROC, d, deadline)):
        if err:
            print(err)
            return 2
        for k in tot:
            tot[k] += st[k]
        keys.update(array.array('q', st['keys']))
        samples += st['samples']
        bad += st['bad']
    tot['distinct'] = len(keys)
    return finish(check, tier, seed, t0, tot, samples, bad)


def finish(check, tier, seed, t0, tot, samples, bad, extra=None):
    known = load_known(check.pid)
    hit = {}
    new = []
    for b in bad:
        for kf in known:
            if re.search(kf['match'], b[0]):
                hit[kf['match']] = kf
                break
        else:
            new.append(b)
    for kf in known:
        # a listed finding is announced whether or not this tier's bounds reach it
        print('KNOWN-FINDING: property=%s %s' % (check.pid, kf['what']))
    cov = dict(evaluations=tot['cases'], distinct_nontrivial=tot['distinct'],
               states=tot['states'], transitions=tot['transitions'],
               traces_validated_against_impl=tot['runs'],
               programs_also_run_on_the_real_binary=tot['conf'],
               exhaustive=tot['skipped'] == 0,
               groups_not_reached_in_time=tot['skipped'],
               space=check.space, rule=check.rule, samples=samples[:12])
    cov.update(extra or {})
    ev = dict(property=check.pid, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases in %d programs, %d on the real binary, %d states, %d transitions, %d not reached, %.1fs' % (
        check.pid, tier, tot['cases'], tot['runs'], tot['conf'], tot['states'], tot['transitions'],
        tot['skipped'], time.time() - t0))
    if not new:
        return 0
    rd = os.path.join(VERIF, 'out', check.pid)
    os.makedirs(rd, exist_ok=True)
    seen = 0
    for key, why, text, res in new:
        if not text and seen:
            continue
        seen += 1
        if seen > 12:
            break
        h = hashlib.sha1((key + why).encode()).hexdigest()[:10]
        p = os.path.join(rd, 'replay-%s.txt' % h)
        with open(p, 'w', encoding='latin-1', errors='replace') as f:
            f.write('property: %s\ncase: %s\nwrong: %s\nobserved: %s\n\n%s\n' % (check.pid, key, why, res, text))
        print('  case: %s\n  wrong: %s' % (key[:500], why[:600]))
        print('VIOLATION property=%s replay=%s' % (check.pid, p))
    return 1
