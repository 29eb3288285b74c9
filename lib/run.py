"""Client of the fork server (harness/harness.c)."""
import atexit, os, shutil, struct, subprocess, tempfile

F_RAW, F_LINES, F_PERTURB = 1, 2, 4


class Result:
    __slots__ = ('rc', 'sig', 'timeout', 'out', 'err', 'allocs', 'collections', 'want')

    def __repr__(self):
        return 'rc=%s sig=%s%s out=%r err=%r' % (
            self.rc, self.sig, ' TIMEOUT' if self.timeout else '',
            self.out[:2000], self.err[:2000])

    @property
    def ended(self):
        """How the program ended, comparable across runs."""
        return 'timeout' if self.timeout else \
            'signal %d' % self.sig if self.sig else 'exit %d' % self.rc


def _s(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return struct.pack('<I', len(b)) + b + b'\0'


class Harness:
    def __init__(self, builddir, variant='plain'):
        self.variant = variant
        self.path = os.path.join(builddir, 'harness')
        self.bic = os.path.join(builddir, 'bic')
        self.scratch = tempfile.mkdtemp(prefix='bicverif.')
        self.p = None
        self.env = {}
        atexit.register(self.close)

    def _start(self):
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C',
               'HOME': self.scratch, 'TERM': 'dumb',
               'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:'
               'detect_stack_use_after_return=0:handle_segv=1', **self.env}
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, bufsize=0,
                                  cwd=self.scratch)
        self.pid = os.getpid()

    def close(self):
        if self.p and self.pid == os.getpid():
            self.p.stdin.close()
            self.p.wait()
            self.p = None
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _read(self, n):
        r = b''
        while len(r) < n:
            c = self.p.stdout.read(n - len(r))
            if not c:
                raise RuntimeError('the harness ended')
            r += c
        return r

    def request(self, argv, script=None, lines=None, gc=None, timeout=10000,
                perturb=True, cwd=None, env=(), mem=2048):
        """Run bic with these arguments. `script' stands for the output of the
        preprocessor; `lines' are the lines of the session (a line that starts
        with a tab asks for a completion)."""
        if self.p is None:
            self._start()
        flags = (F_RAW if script is not None else 0) | \
            (F_LINES if lines is not None else 0) | (F_PERTURB if perturb else 0)
        if self.variant == 'asan':
            mem = 0
            flags &= ~F_PERTURB
        r = struct.pack('<III', flags, timeout, mem) + _s(cwd or self.scratch)
        r += struct.pack('<I', len(env)) + b''.join(_s(e) for e in env)
        r += struct.pack('<I', len(argv)) + b''.join(_s(a) for a in argv)
        r += _s(script or b'')
        r += struct.pack('<I', len(lines or ())) + b''.join(_s(l) for l in lines or ())
        period, phase, points = gc or (0, 0, ())
        r += struct.pack('<III', period, phase, len(points))
        r += b''.join(struct.pack('<I', p) for p in points)
        self.p.stdin.write(struct.pack('<I', len(r)) + r)
        st, to, allocs, coll = struct.unpack('<iIQQ', self._read(24))
        res = Result()
        res.timeout = bool(to)
        res.rc = os.waitstatus_to_exitcode(st)
        res.sig = 0
        if res.rc < 0:
            res.sig, res.rc = -res.rc, None
        res.allocs, res.collections = allocs, coll
        n, = struct.unpack('<I', self._read(4))
        res.out = self._read(n).decode('latin-1')
        n, = struct.unpack('<I', self._read(4))
        res.err = self._read(n).decode('latin-1')
        return res

    def script(self, text, args=(), name='t.c', pre=(), **kw):
        """Run a script that has no preprocessor directives. `pre' are the
        arguments before -s."""
        head = '# 0 "%s"\n# 1 "%s"\n' % (name, name)
        return self.request(['bic', *pre, '-s', name] + list(args), script=head + text, **kw)

    def session(self, lines, args=(), **kw):
        """Run a REPL session; returns (result, [(out, err) per line], tail)."""
        r = self.request(['bic'] + list(args), lines=lines, **kw)
        o, e = r.out.split('\x01\n'), r.err.split('\x01\n')
        return r, o[1:], e[1:]

    def real_script(self, text, args=(), name='t.c', pre=(), env=None, timeout=20):
        """Run a script through the plain program and the real preprocessor."""
        with tempfile.TemporaryDirectory(dir=self.scratch) as d:
            with open(os.path.join(d.encode(), name.encode('latin-1')), 'w', encoding='latin-1') as f:
                f.write(text)
            return self.real([*pre, '-s', name, *args], cwd=d, env=env, timeout=timeout)

    def real(self, argv, cwd=None, env=None, stdin=b'', timeout=20):
        e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C',
             'HOME': self.scratch, 'TERM': 'dumb', **self.env, **(env or {})}
        r = Result()
        r.timeout, r.sig, r.allocs, r.collections = False, 0, 0, 0
        try:
            p = subprocess.run([self.bic] + [a.encode('latin-1') for a in argv], cwd=cwd or self.scratch, env=e,
                               input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            r.rc, r.out, r.err = p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
        except subprocess.TimeoutExpired as x:
            r.timeout, r.rc, r.out, r.err = True, None, (x.stdout or b'').decode('latin-1'), ''
        if r.rc is not None and r.rc < 0:
            r.sig, r.rc = -r.rc, None
        return r
