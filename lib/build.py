"""Build bic and the exploration harness from /repo's current working tree.

Nothing of /repo/_build is used: the sources in /repo/src are copied into a
cache directory keyed by their content, the generators, lexers and parsers are
run there, and the objects are linked twice - into the plain program `bic' and
into the harness (harness/harness.c + the same objects with `main' renamed).
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BIC_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')

GENS = [('gentypes', 'tree.def'), ('genctypes', 'ctypes.def'),
        ('gentree', 'tree-base.h'), ('genaccess', 'tree-access.h'),
        ('gengc', 'gc-internal.c'), ('gendump', 'tree-dump.c'),
        ('gendot', 'tree-dump-dot.c'), ('genffitypes', 'ffi-types.c'),
        ('genspecresolver', 'spec-resolver.c')]

VARIANTS = {
    # name: (common cflags, per-file extra cflags, link flags)
    'plain': ('-g -O2 -DBIC_VERIF', {}, ''),
    # The collector scans the stack and registers conservatively, which a
    # sanitizer rightly objects to: gc.c itself isn't instrumented.
    'asan': ('-g -O1 -fno-omit-frame-pointer -DBIC_VERIF -fsanitize=address',
             {'gc.c': '-fno-sanitize=address'}, '-fsanitize=address'),
}


class BuildError(Exception):
    pass


def _sh(cmd, cwd, env=None):
    e = dict(os.environ, M4PATH=cwd)
    e.pop('MAKEFLAGS', None)
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (cmd, p.stdout[-6000:]))


def _key(variant):
    h = hashlib.sha256()
    h.update(repr(VARIANTS[variant]).encode())
    src = os.path.join(REPO, 'src')
    for d in (src, os.path.join(VERIF, 'harness')):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(f.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:20]


def _compile(top, variant):
    d = os.path.join(top, 'src')
    os.makedirs(d)
    cflags, extra, ldflags = VARIANTS[variant]
    src = os.path.join(REPO, 'src')
    for f in os.listdir(src):
        p = os.path.join(src, f)
        if os.path.isfile(p) and f.rsplit('.', 1)[-1] in (
                'c', 'h', 'cpp', 'm4', 'lpp', 'lang'):
            shutil.copy(p, d)
    shutil.copy(os.path.join(VERIF, 'harness', 'config.h'), top)
    shutil.copy(os.path.join(VERIF, 'harness', 'harness.c'), d)
    sh = lambda c: _sh(c, d)
    with ThreadPoolExecutor(12) as ex:
        def parser(t):
            sh('m4 -DTARGET=%s lex.m4 > %slex.l && m4 -DTARGET=%s parser.m4 > %sparser.y' % (t, t, t, t))
            sh('flex --header-file=%slex.h -o %slex.c %slex.l' % (t, t, t))
            sh('bison -y --warnings=no-yacc -d -o %sparser.c %sparser.y' % (t, t))
        sh('flex --header-file=lang_lexer.h -o lang_lexer.cpp lang_lexer.lpp')
        jobs = [ex.submit(parser, t) for t in ('repl', 'cscript')]
        jobs += [ex.submit(sh, 'g++ -std=c++11 -I. -c %s.cpp' % n)
                 for n in ['lang', 'lang_lexer'] + [g for g, _ in GENS]]
        for j in jobs:
            j.result()
        list(ex.map(sh, ['g++ -o %s %s.o lang.o lang_lexer.o && ./%s c.lang > /dev/null'
                         % (g, g, g) for g, _ in GENS]))
        for g, out in GENS:
            if not os.path.exists(os.path.join(d, out)):
                raise BuildError('%s made no %s' % (g, out))
        # every C file of the program, main.c apart
        gen_c = {o for _, o in GENS if o.endswith('.c')} | {
            t + s for t in ('repl', 'cscript') for s in ('lex.c', 'parser.c')}
        srcs = sorted(gen_c | {f for f in os.listdir(src) if f.endswith('.c')})
        cc = 'gcc -w -I. -I.. -DHAVE_CONFIG_H ' + cflags + ' -c '
        cmds = []
        for f in srcs:
            x = extra.get(f, '')
            if f == 'main.c':
                cmds += [cc + x + ' main.c -o bic-main.o',
                         cc + x + ' -Dmain=bic_main main.c -o hmain.o']
            else:
                cmds.append(cc + x + ' %s -o %s.o' % (f, f[:-2]))
        cmds.append('gcc -w -g -O1 %s -c harness.c' % ldflags)
        list(ex.map(sh, cmds))
        objs = ' '.join(f[:-2] + '.o' for f in srcs if f != 'main.c')
        libs = '-lreadline -lgmp -lffi -ldl'
        links = ['gcc %s -o ../bic bic-main.o %s %s' % (ldflags, objs, libs),
                 'gcc %s -Wl,--wrap=popen -Wl,--wrap=pclose -Wl,--wrap=system '
                 '-Wl,--wrap=readline -o ../harness harness.o hmain.o %s %s' % (ldflags, objs, libs)]
        list(ex.map(sh, links))
    shutil.rmtree(d)


def build(variant='plain'):
    """Return the directory holding `bic' and `harness'."""
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, variant + '-' + _key(variant))
    with open(os.path.join(CACHE, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.ok')):
            return d
        for f in os.listdir(CACHE):     # one tree per variant is kept
            if f.startswith(variant + '-'):
                shutil.rmtree(os.path.join(CACHE, f), ignore_errors=True)
        os.makedirs(d)
        _compile(d, variant)
        open(os.path.join(d, '.ok'), 'w').close()
    return d


if __name__ == '__main__':
    t = time.time()
    for v in sys.argv[1:] or ['plain']:
        print(build(v), '%.1fs' % (time.time() - t))
