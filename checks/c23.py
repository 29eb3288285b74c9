"""C23: headers and libraries are usable.

All lists of -I directories with headers that hide, include and guard each
other x sequences of #include lines, in scripts and in sessions that use what
the headers provide and objects of their own in between; all lists of
libraries, by every spelling, that hide each other's symbols; the system's
headers alone and in pairs, with the values gcc gives; and declarations
decorated the way headers are.
"""
import itertools, json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, engine, run, scale, sess
from sess import *

# -- directories of headers
TY = {1: ('char', CHAR), 2: ('short', SHORT), 3: ('int', INT), 4: ('long', LONG)}
PROTO = 'int printf(const char *f, ...);\n'


def block(n, k):
    """What the header n of directory k provides."""
    N = n.upper()
    return ('#ifndef %(N)s_H\n#define %(N)s_H\n#define M%(N)s %(k)d\n#define F%(N)s(x) ((x) * M%(N)s)\ntypedef %(t)s t%(n)s;\n'
            'struct s%(n)s { t%(n)s m; char v[%(k)d]; struct s%(n)s *next; };\nenum e%(n)s { E%(N)s = %(k)d * 10, EE%(N)s };\nt%(n)s o%(n)s = %(k)d + 5;\nint abs(int);\nextern int optind;\n'
            'int f%(n)s(int x) { return F%(N)s(x) + o%(n)s; }\nint g%(n)s(t%(n)s *p) { *p = *p + M%(N)s; return abs(-*p); }\nint h%(n)s(struct s%(n)s *p) { return p->m + E%(N)s; }\n#endif\n'
            % dict(n=n, N=N, k=k, t=TY[k][0]))


# directory -> header -> what it includes before its own block, and whether it has one
DIRS = {
    'd1': {'a': ([], True), 'b': ([], True)},
    'd1x': {'a': ([], True), 'c': (['<b.h>'], True)},
    "d 3'$x": {'b': (['"c.h"'], True), 'c': (['"a.h"', '<a.h>'], True)},
    'here': {'b': ([], True), 'm': ([], False)},     # where the script is
}
NUM = {d: i + 1 for i, d in enumerate(DIRS)}


class Missing(Exception):
    pass


def load(loaded, spec, cur, path, depth=0):
    """The effect of an #include: {header: directory}."""
    f = spec[1:-3]
    for d in ([cur] if cur and spec[0] == '"' else []) + [d for d in path if d in DIRS]:
        if f in DIRS[d]:
            break
    else:
        raise Missing(spec)
    if depth > 6:
        return
    incs, own = DIRS[d][f]
    # a header includes others within its guard
    if f in loaded and own:
        return
    if own:
        loaded[f] = NUM[d]
    for i in incs:
        load(loaded, i, d, path, depth + 1)


def header(f, d):
    incs, own = DIRS[d][f]
    if not own:
        return '#define M_%d\n/* nothing else */' % NUM[d]
    b = block(f, NUM[d]).split('\n')
    return '\n'.join(b[:2] + ['#include ' + i for i in incs] + b[2:])


def uses(n):
    N = n.upper()
    return 'printf("%%d %%d %%d %%d %%d %%d %%d|", M%(N)s, (int)sizeof(t%(n)s), (int)sizeof(struct s%(n)s), EE%(N)s, (int)o%(n)s, f%(n)s(3), F%(N)s(EE%(N)s - E%(N)s)); o%(n)s = o%(n)s + 1;\n' % dict(n=n, N=N)


def used(n, k, o):
    z = size(TY[k][1])
    return '%d %d %d %d %d %d %d|' % (k, z, ((z + k + 7) // 8 + 1) * 8, k * 10 + 1, o, 3 * k + o, k)


SPECS = ['<a.h>', '"a.h"', '<b.h>', '"b.h"', '<c.h>', '"c.h"', '"m.h"']

# -- libraries
LIBS = {
    'one': 'int which(void) { return 1; } int one_var = 11; int one(int x) { return x + one_var; } static int n; int count(void) { return ++n; }\n',
    'two': 'int which(void) { return 2; } int two(int (*f)(int), int x) { return f(f(x)); } struct ts { int a; char b; }; struct ts two_s = { 21, 22 }; int two_a[3] = { 5, 6, 7 };\n',
    'four': 'int which(void) { return 4; } int count(void) { return 100; } char *four(char *s) { return s + 1; } double four_d(float x, double y) { return x + y; } const char *four_s = "four!";\n',
}
# library: (provides, place of the file)
PROVIDES = {'one': ['which', 'one', 'count'], 'two': ['which', 'two'], 'four': ['which', 'count', 'four'], 'm': ['floor'], None: []}
USES = {
    'which': ('int which(void);\n', 'printf("%d|", which());\n', None),
    'one': ('extern int one_var;\nint one(int x);\n', 'one_var = one_var + 1; printf("%d %d|", one(5), one_var);\n', '17 12|'),
    'two': ('struct ts { int a; char b; };\nextern struct ts two_s;\nextern int two_a[];\nint two(int (*f)(int), int x);\n', 'printf("%d %d %d %d|", two(inc, 5), two_s.a, two_s.b, two_a[1]);\n', '7 21 22 6|'),
    'four': ('char *four(char *);\ndouble four_d(float, double);\nextern char *four_s;\n', 'printf("%s %.2f %s|", four("xyz"), four_d(1.5, 2.25), four_s);\n', 'yz 3.75 four!|'),
    'count': ('int count(void);\n', 'printf("%d", count()); printf("%d|", count());\n', None),
    'floor': ('double floor(double);\n', 'printf("%.1f|", floor(2.75));\n', '2.0|'),
}

# -- the system's headers
SYS = {
    'stdio.h': ['EOF', 'BUFSIZ', 'sizeof(FILE)', 'sprintf(buf, "%d-%s", 12, "x")', 'stdin != stderr', 'fileno(stderr)', 'sscanf("12 7", "%d", &n) + n'],
    'stdlib.h': ['atoi("12")', 'RAND_MAX', 'labs(-7L)', 'strtol("0x1f", NULL, 16)', 'sizeof(div_t)', 'malloc(3) != NULL', 'alloca(16) != NULL'],
    'string.h': ['strlen("hello")', 'strcmp("a", "b") < 0', 'strchr("abc", 66) == NULL', 'strcpy(buf, "xyz") == buf', 'sizeof(size_t)'],
    'limits.h': ['INT_MAX', 'LONG_MIN', 'UCHAR_MAX', 'PATH_MAX', 'UINT_MAX'], 'stdint.h': ['sizeof(uint8_t)', 'INT16_MAX', 'UINT8_MAX', 'sizeof(int_least16_t)'],
    'inttypes.h': ['sizeof(uint16_t)', 'imaxabs(-5)', 'sizeof(imaxdiv_t)'], 'stddef.h': ['sizeof(ptrdiff_t)', 'NULL == 0', 'sizeof(size_t)'], 'stdbool.h': ['true', 'false'],
    'errno.h': ['ENOENT', 'ERANGE'], 'time.h': ['sizeof(struct tm)', 'CLOCKS_PER_SEC', 'sizeof(struct timespec)', 'time(NULL) > 1000'],
    'ctype.h': ['isdigit(48) != 0', 'toupper(97)', 'isalpha(48) != 0'], 'unistd.h': ['getpid() > 0', 'STDERR_FILENO', 'sysconf(_SC_PAGESIZE)', 'access("/", F_OK)', 'sizeof(ssize_t)'],
    'sys/types.h': ['sizeof(off_t)', 'sizeof(mode_t)', 'sizeof(u_int8_t)'], 'sys/stat.h': ['sizeof(struct stat)', 'S_IFMT', 'S_IRUSR'],
    'sys/time.h': ['sizeof(struct timeval)', 'ITIMER_REAL', 'sizeof(struct itimerval)'], 'sys/wait.h': ['WNOHANG', 'sizeof(pid_t)'], 'sys/mman.h': ['PROT_READ', 'MAP_ANONYMOUS'],
    'sys/socket.h': ['AF_INET', 'SOCK_STREAM', 'sizeof(struct sockaddr)', 'SHUT_RDWR'], 'sys/ioctl.h': ['TIOCGWINSZ', 'sizeof(struct winsize)'], 'sys/resource.h': ['RLIMIT_NOFILE', 'sizeof(struct rusage)'],
    'sys/select.h': ['sizeof(fd_set)', 'FD_SETSIZE'], 'sys/utsname.h': ['sizeof(struct utsname)'], 'sys/uio.h': ['sizeof(struct iovec)'], 'sys/un.h': ['sizeof(struct sockaddr_un)'],
    'netinet/in.h': ['sizeof(struct sockaddr_in)', 'IPPROTO_TCP', 'htons(258)', 'sizeof(struct in6_addr)'], 'arpa/inet.h': ['INADDR_NONE', 'inet_addr("127.0.0.1")', 'sizeof(struct in_addr)'],
    'netdb.h': ['sizeof(struct hostent)', 'sizeof(struct addrinfo)', 'AI_PASSIVE'], 'fcntl.h': ['O_CREAT', 'sizeof(struct flock)', 'AT_FDCWD'],
    'signal.h': ['SIGKILL', 'sizeof(sigset_t)', 'sizeof(struct sigaction)'], 'pthread.h': ['sizeof(pthread_mutex_t)', 'PTHREAD_CREATE_DETACHED', 'pthread_self() != 0'],
    'dirent.h': ['sizeof(struct dirent)', 'DT_DIR', 'opendir("/nonexistent") == 0'], 'dlfcn.h': ['RTLD_NOW', 'dlsym(0, "nosuchfunction") == 0'], 'poll.h': ['POLLIN', 'sizeof(struct pollfd)', 'poll(0, 0, 0)'],
    'locale.h': ['LC_ALL', 'sizeof(struct lconv)'], 'getopt.h': ['optind > 0', 'sizeof(struct option)'], 'setjmp.h': ['sizeof(jmp_buf)'], 'search.h': ['sizeof(ENTRY)', 'FIND'],
    'pwd.h': ['sizeof(struct passwd)', 'getpwuid(0) != 0'], 'grp.h': ['sizeof(struct group)'], 'syslog.h': ['LOG_DAEMON'], 'termios.h': ['TCSANOW', 'sizeof(struct termios)', 'ECHO'],
    'wchar.h': ['sizeof(wint_t)', 'WEOF', 'sizeof(mbstate_t)'], 'wctype.h': ['iswdigit(48) != 0'], 'iso646.h': ['1 and 0', 'not 0'], 'regex.h': ['REG_EXTENDED', 'REG_NOMATCH', 'sizeof(regmatch_t)'],
    'glob.h': ['sizeof(glob_t)', 'GLOB_NOSORT'], 'fnmatch.h': ['fnmatch("a*", "abc", 0)', 'fnmatch("b*", "abc", 0)'], 'libgen.h': ['dirname != 0'], 'utime.h': ['sizeof(struct utimbuf)'],
    'semaphore.h': ['sizeof(sem_t)'], 'sched.h': ['SCHED_OTHER', 'sizeof(struct sched_param)'], 'strings.h': ['strcasecmp("aB", "Ab")', 'ffs(8)'], 'sys/param.h': ['MAXPATHLEN', 'MIN(3, 4)', 'MAX(3, 4)'],
    'sys/file.h': ['LOCK_EX'], 'sys/times.h': ['sizeof(struct tms)'], 'sys/statvfs.h': ['sizeof(struct statvfs)'], 'sys/ipc.h': ['IPC_CREAT', 'sizeof(key_t)'], 'sys/shm.h': ['sizeof(struct shmid_ds)'],
    'ftw.h': ['FTW_D'], 'langinfo.h': ['CODESET', 'nl_langinfo(CODESET) != 0'], 'spawn.h': ['sizeof(posix_spawnattr_t)'], 'ucontext.h': ['sizeof(ucontext_t)'], 'utmpx.h': ['sizeof(struct utmpx)'], 'wordexp.h': ['sizeof(wordexp_t)'],
    'endian.h': ['BYTE_ORDER'], 'malloc.h': ['sizeof(struct mallinfo)'], 'net/if.h': ['IF_NAMESIZE', 'sizeof(struct ifreq)'], 'netinet/tcp.h': ['TCP_NODELAY'], 'sys/epoll.h': ['EPOLLIN', 'EPOLL_CTL_ADD'],
    'sys/eventfd.h': ['EFD_NONBLOCK'], 'sys/inotify.h': ['IN_CREATE', 'sizeof(struct inotify_event)'], 'sys/xattr.h': ['XATTR_CREATE'], 'float.h': ['FLT_DIG', 'DBL_MANT_DIG'], 'fenv.h': ['FE_TONEAREST'],
    'uchar.h': ['sizeof(char16_t)'], 'threads.h': ['thrd_success', 'sizeof(mtx_t)'], 'argp.h': ['ARGP_ERR_UNKNOWN'], 'sysexits.h': ['EX_USAGE'], 'elf.h': ['EI_NIDENT', 'sizeof(Elf64_Ehdr)'], 'aio.h': ['sizeof(struct aiocb)'],
    'mqueue.h': ['sizeof(struct mq_attr)'], 'sys/random.h': ['GRND_NONBLOCK'], 'ifaddrs.h': ['sizeof(struct ifaddrs)'], 'assert.h': ['1'], 'alloca.h': ['alloca(8) != 0', '(char *)alloca(3) != (char *)alloca(3)'], 'stdarg.h': ['1'], 'paths.h': ['1'], 'err.h': ['1'], 'tar.h': ['1'],
}
MAIN = ['stdio.h', 'stdlib.h', 'string.h', 'limits.h', 'stdint.h', 'inttypes.h', 'stddef.h', 'stdbool.h', 'errno.h', 'time.h', 'ctype.h', 'unistd.h', 'sys/types.h', 'sys/stat.h', 'sys/time.h', 'sys/wait.h',
        'sys/mman.h', 'sys/socket.h', 'sys/ioctl.h', 'sys/resource.h', 'netinet/in.h', 'arpa/inet.h', 'netdb.h', 'fcntl.h', 'signal.h', 'pthread.h', 'dirent.h', 'dlfcn.h', 'poll.h', 'getopt.h', 'termios.h', 'wchar.h', 'regex.h', 'glob.h']
SMALL = ['stdio.h', 'stdlib.h', 'string.h', 'limits.h', 'stdint.h', 'errno.h', 'time.h', 'ctype.h', 'unistd.h', 'sys/stat.h', 'fcntl.h', 'signal.h', 'dirent.h', 'getopt.h']

# -- decorations, and the declarations they may be added to at each %
# (@: attributes, $: also another name for the assembler, %: __extension__)
ATTR = ['__attribute__((unused))', '__attribute__ ((__nothrow__ , __leaf__))', '__attribute__((aligned(4)))', '__attribute__((__format__ (__printf__, 1, 2), deprecated ("use (f) \\" instead)")))',
        '__attribute__(\n(unused\n)\n)', '__attribute((unused))', '__attribute__((unused)) __attribute__((cold))']
DECOR = {'@': ATTR, '$': ATTR + ['__asm__("")', '__asm__ ("" "x)y")', '__asm("sym")', '__asm__ ("a") __attribute__ ((__nothrow__))'], '%': ['__extension__', '__extension__ __extension__']}
QUAL = ['const', 'volatile', '__const', '__const__', '__volatile__', '__volatile', 'const volatile', '']
DECLS = {
    # name: (declaration with places for decorations, use, result)
    'variable': ('% int v$ @ = 3, w$ @ = (4);', 'v + w', 7),
    'function': ('% int f(int a, int (*g)(int))$; % int f(int a, int (*g)(int)) { return (g(a)); }', 'f(3, (inc))', 4),
    'static': ('static@ int f(int a) { return (a); }', 'f((4)) + f(1)', 5),
    'struct': ('struct@ s { % int a@ @; % char (*b); }@; % struct s x;', '(x.a = 3) + sizeof(struct s)', 19),
    'typedef': ('% typedef int T@ @; T t = (5);', 't + (int)sizeof(T)', 9),
    'extern': ('% extern int optind$ @; % extern int abs(int)$;', 'abs(-3) + (optind > 0)', 4),
    'enum': ('% enum e { A = 2, B }@; enum e v;', 'A + B', 5),
    'local': ('int f(void) { % int a$ @ = 2; int b@ = (a); return (a + (b)); }', 'f() * (2)', 8),
    'pointer': ('char *p$; int i; % int *@ q$ @ = &i; int *const z$ @ = &i;', '(q == z) + (p == 0)', 2),
    'parameter': ('int f(int a@ @, char *b@ @) { return (a + (b[0])); }', 'f((1), ("A"))', 66),
}


# what there may be much of, and how much
BIG = {'dirs': (513, 1025), 'first': (257, 513), 'joined': (257, 513), 'dir name': (200, 200), 'header name': (200, 200), 'path': (1025, 2049), 'headers': (129, 257), 'same': (129, 257), 'depth': (129, 129),
       'prototypes': (1025, 2049), 'macros': (257, 1025), 'body': (32769, 65537), 'line': (32769, 65537), 'arguments': (100, 100), 'libs': (257, 513), 'last lib': (129, 257), 'session': (17, 65), 'uses': (33, 129)}


def big(k, n, root, libs):
    """(files, options, script, session, what is printed): much of something, at work in `root'."""
    f, opts, t, ls, out = {}, [], '', None, ''
    if k in ('dirs', 'first', 'joined'):
        for i in range(n):
            f['v%d/x%d.h' % (i, i)] = 'int x%d = %d;\n' % (i, i)
            opts += ['-I%s/v%d' % (root, i)] if k == 'joined' else ['-I', '%s/v%d' % (root, i)]
        # all have it; the first counts
        for i in range(n if k == 'first' else 0):
            f['v%d/y.h' % i] = '#define Y %d\n' % (i + 50)
        t = ''.join('#include <x%d.h>\n' % i for i in sorted({0, n // 2, n - 1})) + ('#include "y.h"\nprintf("%d ", Y);\n' if k == 'first' else '')
        t += 'printf("%%d %%d %%d\\n", x0, x%d, x%d);\n' % (n // 2, n - 1)
        out = ('50 ' if k == 'first' else '') + '0 %d %d\n' % (n // 2, n - 1)
    elif k in ('dir name', 'header name', 'path'):
        d = ('dir-name_' * n)[:n].strip('/') if k == 'dir name' else '/'.join(['d'] * (n // 2 + 1)) if k == 'path' else 'd'
        x = ('name.x-' * n)[:n] if k == 'header name' else 'x'
        f['%s/%s.h' % (d, x)] = '#define X 5\nint x(void) { return X; }\n'
        opts = ['-I', '%s/%s' % (root, d)]
        t, out = '#include "%s.h"\nprintf("%%d\\n", x() + X);\n' % x, '10\n'
    elif k in ('headers', 'same', 'session', 'uses'):
        m = n if k in ('headers', 'session') else 1
        for i in range(m):
            f['h/x%d.h' % i] = '#ifndef X%d\n#define X%d %d\nstatic int f%d(int a) { return a + X%d; }\ntypedef char t%d[%d];\n#endif\n' % (i, i, i, i, i, i, i + 1)
        opts = ['-I', root + '/h']
        inc = ['#include <x%d.h>' % (i % m) for i in range(n if k != 'uses' else 1)]
        if k in ('session', 'uses'):
            ls = [(l, ANY) for l in inc]
            for i in sorted({0, m // 2, m - 1}) * (1 if k == 'session' else n):
                ls += [('f%d(3) + X%d + sizeof(t%d);' % (i, i, i), '%d\n' % (3 + i * 3 + 1))]
        t = '\n'.join(inc) + '\n'
        for i in range(m):
            t += 'printf("%%d ", f%d(3) + X%d + (int)sizeof(t%d));\n' % (i, i, i)
            out += '%d ' % (3 + i * 3 + 1)
    elif k == 'depth':
        for i in range(n):
            f['h/x%d.h' % i] = ('#include "x%d.h"\n' % (i + 1) if i < n - 1 else '') + 'int x%d = %s + 1;\n' % (i, 'x%d' % (i + 1) if i < n - 1 else '0')
        opts, t, out = ['-I', root + '/h'], '#include <x0.h>\nprintf("%d\\n", x0);\n', '%d\n' % n
    elif k == 'prototypes':
        f['h/x.h'] = ''.join('extern int p%d(int a, char *b) __attribute__((nothrow));\nstruct s%d { int a; char b[%d]; };\n\n' % (i, i, i + 1) for i in range(n)) + 'int abs(int);\n'
        opts, t = ['-I', root + '/h'], '#include <x.h>\nprintf("%%d %%d\\n", abs(-4), (int)sizeof(struct s%d));\n' % (n - 1)
        out = '4 %d\n' % (4 + (n + 3) // 4 * 4)
    elif k == 'macros':
        f['h/x.h'] = '#define M0 1\n' + ''.join('#define M%d (M%d + %d)\n' % (i, i - 1, i) for i in range(1, n))
        opts, t, out = ['-I', root + '/h'], '#include <x.h>\nprintf("%%d\\n", M%d);\n' % (n - 1), '%d\n' % (1 + n * (n - 1) // 2)
    elif k == 'body':
        f['h/x.h'] = '#define M "%s"\nchar *m = M;\n' % ('macro ' * n)[:n]
        opts, t, out = ['-I', root + '/h'], '#include <x.h>\nprintf("%s|%s\\n", m, M);\n', '%s|%s\n' % ((('macro ' * n)[:n],) * 2)
    elif k == 'line':
        f['h/x.h'] = '\n' * n + 'int x(void) { return __LINE__; }\n'
        opts, t, out = ['-I', root + '/h'], '#include <x.h>\nprintf("%d %d\\n", x(), __LINE__);\n', '%d 3\n' % (n + 1)
    elif k == 'arguments':
        a = ['a%d' % i for i in range(n)]
        f['h/x.h'] = '#define M(%s) (%s)\n' % (', '.join(a), ' + '.join(a))
        opts, t, out = ['-I', root + '/h'], '#include <x.h>\nprintf("%%d\\n", M(%s));\n' % ', '.join(map(str, range(n))), '%d\n' % (n * (n - 1) // 2)
    elif k in ('libs', 'last lib'):
        for i in range(n):
            opts += ['-l', 'one' if k == 'last lib' and i == n - 1 else 'm' if i % 3 or k == 'last lib' else 'two']
        t = USES['which'][0] + USES['which'][1]
        out = '1|' if k == 'last lib' else '2|'
    return f, opts, PROTO + t, ls, out


# names that are alike: of headers, of directories and of libraries
ALIKE = {'h': ['a.h', 'A.h', 'a.H', 'aa.h', 'a.hh', 'a', 'b.h', 'a.h.h', 'sub/a.h', 'Sub/a.h', 'sub/sub/a.h', 'sub2/a.h', 'x-a.h', 'x_a.h', 'x a.h', 'ya.h', '1a.h', 'a.h1'],
         'd': ['d', 'D', 'dd', 'd1', 'd2', 'd/d', 'd.', 'd-d', 'd_d', 'e', 'd d'],
         'l': ['al', 'Al', 'al1', 'al2', 'all', 'a', 'al-1', 'al_1', 'al.1', 'bal', 'mal', 'm1', 'ma']}


def alike(kind, names, session, root):
    """(options, script, session) that use things by names that are alike."""
    ids = [ALIKE[kind].index(n) for n in names]
    if kind == 'h':
        opts = ['-I', root + '/alike']
        t = ['#include %s' % (('<%s>', '"%s"')[(0, j % 2, 0, 1)[session]] % n) for j, n in enumerate(names)]
    elif kind == 'd':
        opts = [x for n in names for x in ('-I', '%s/aliked/%s' % (root, n))]
        t = ['#include "x.h"'] + ['#include <x%d.h>' % i for i in ids]
    else:
        opts = [x for n in names for x in ('-l', n)]
        t = ['int which_al(void);'] + ['int h%d(int a);\nextern int v%d;' % (i, i) for i in ids]
    want = []
    if kind != 'h':
        want.append(('which_al();' if kind == 'l' else 'XX + 0;', '%d\n' % ids[0]))
    for r in range(2):
        for i in ids:
            want.append(('h%d(%d) + v%d;' % (i, r, i), '%d\n' % (r + 7 * i + 3 * i)))
            if kind != 'l':
                want.append(('X%d + sizeof(struct s%d);' % (i, i), '%d\n' % (i + i + 1)))
    lines = [(l, ANY) for x in t for l in x.split('\n')] + want
    script = PROTO + '\n'.join(t) + '\n' + ''.join('printf("%%d\\n", (int)(%s));\n' % e[:-1] for e, _ in want)
    return opts, script, lines


class C23(sess.Sessions):
    pid = 'C23'
    rule = ('a case is a script or session with a list of options; everything the headers and libraries found provide is used and must have the '
            'value it has there; what is not found must be reported and end the program with a status other than 0')
    assumptions = ['gcc is the preprocessor and gives the values of the system\'s headers', 'objects that headers define start anew when a session includes another header (documented in eval_cpp_include)',
                   'a name that a library provides is looked up in the order the libraries are given']
    space = ('all lists of <= 3 -I directories x all sequences of <= 2 (thorough 3) spellings of #include in scripts, and all sequences of lines in sessions; all lists of <= 2 (thorough 3) libraries in 16 spellings x uses; '
             'all lists of <= 2 (thorough 3) of headers, directories and libraries whose names are alike; the system headers alone and in pairs, with values from gcc; decorated declarations; %d kinds of configurations with a size (directories, names, headers, depth, macros, libraries, lines) up to 33-2049' % len(BIG))
    conformance_every = 41
    batch = 4
    time_budget = {'quick': 400, 'thorough': 3600}

    def setup(self, scratch):
        self.root = scratch
        for d, hs in DIRS.items():
            os.makedirs(os.path.join(scratch, d))
            for f in hs:
                open(os.path.join(scratch, d, f + '.h'), 'w').write(header(f, d))
        os.makedirs(scratch + '/empty')
        os.makedirs(scratch + '/shadow')
        open(scratch + '/shadow/h.h', 'w').write('#ifndef H\n#define H\nshort thing = 3;\nint fn(int x) { return x + 1; }\nstruct st { char c; };\nunion un { char c[3]; };\nenum { KK = 5 };\ntypedef short ty;\n#endif\n')
        open(scratch + '/shadow/g.h', 'w').write('#ifndef G\n#define G\nint in_g;\n#endif\n')
        for d, f in [('alike', ALIKE['h'])] + [('aliked/' + d, ['x.h', 'x%d.h' % i]) for i, d in enumerate(ALIKE['d'])]:
            for j, n in enumerate(f):
                i = j if d == 'alike' else ALIKE['d'].index(d[7:])
                os.makedirs(os.path.dirname('%s/%s/%s' % (scratch, d, n)), exist_ok=True)
                open('%s/%s/%s' % (scratch, d, n), 'w').write('#define XX %d\n' % i if n == 'x.h' else
                    '#define X%d %d\nstruct s%d { char c[%d]; };\nint v%d = %d;\nint h%d(int a) { return a + 7 * X%d; }\n' % (i, i, i, i + 1, i, 3 * i, i, i))
        self.work = scratch + '/work'
        for i in range(64):
            os.makedirs(self.work + '/%d' % i)
        self.libs = scratch + '/libs'
        self.env = {'LD_LIBRARY_PATH': self.libs}
        os.makedirs(self.libs)
        os.makedirs(scratch + '/lib')
        for n, s in LIBS.items():
            p = scratch + '/lib/%s.c' % n
            open(p, 'w').write(s)
            out = self.libs + ('/lib%s.so' % n if n != 'four' else '/four plug.in')
            subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-o', out, p], check=True)
        for i, n in enumerate(ALIKE['l']):
            p = scratch + '/lib/al%d.c' % i
            open(p, 'w').write('int which_al(void) { return %d; }\nint v%d = %d;\nint h%d(int a) { return a + 7 * %d; }\n' % (i, i, 3 * i, i, i))
            subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-o', self.libs + '/lib%s.so' % n, p], check=True)
        os.symlink('libtwo.so', self.libs + '/libtwo-1.0.so')
        os.symlink('libone.so', self.libs + '/libo.n+e so.so')
        open(self.libs + '/libtext.so', 'w').write('not a library\n')
        # what gcc gives for the system's headers; those that are not there are left out
        self.sys = {}
        ps = []
        for i, (hd, es) in enumerate(SYS.items()):
            p = scratch + '/lib/sys%d' % i
            open(p + '.c', 'w').write('#include <%s>\nint printf(const char *f, ...);\nint n = 0;\nchar buf[99];\nint main(void)\n{\n%sreturn 0;\n}\n' % (
                hd, ''.join('printf("%%ld\\n", (long)(%s));\n' % e for e in es)))
            ps.append((hd, p, subprocess.Popen(['gcc', '-w', '-o', p, p + '.c'], stderr=subprocess.DEVNULL)))
            if len(ps) % 8 == 0:
                ps[-1][2].wait()
        for hd, p, x in ps:
            if x.wait() == 0:
                self.sys[hd] = subprocess.run([p], stdout=subprocess.PIPE, check=True).stdout.decode().split()
            elif hd in SMALL:
                raise RuntimeError('gcc has no ' + hd)

    # -- what is enumerated
    def paths(self):
        ds = [d for d in DIRS if d != 'here']
        for n in range(4):
            yield from itertools.permutations(ds, n)
        yield 'd1x', 'd1', 'd1x'
        yield 'nowhere', 'd1'
        yield 'empty', 'd1x', 'd1'

    def groups(self):
        def pack(it, n):
            g = []
            for x in it:
                g.append(x)
                if len(g) == n:
                    yield g
                    g = []
            if g:
                yield g
        # headers in scripts
        for p in self.paths():
            for n in range(1, 4 if self.deep else 3):
                for s in itertools.product(SPECS, repeat=n):
                    yield [('inc', p, s, 0)]
        for style in range(1, 6):
            for p in itertools.permutations([d for d in DIRS if d != 'here'], 2):
                for s in itertools.product(SPECS[:6:3] + ['"m.h"'], repeat=1):
                    yield [('inc', p, s, style)]
        # sessions
        yield from super().groups()
        # libraries
        sp = self.spellings()
        for n in range(4 if self.deep else 3):
            for ls in itertools.product(sp, repeat=n):
                libs = [sp[l] for l in ls]
                if 'bad' in libs[:-1] or 'none' in libs[:-1] or n == 3 and len(set(libs)) < 3:
                    continue
                for u in USES:
                    # the search must fail only where nothing provides it
                    yield [('lib', ls, (u,), 0)]
                have = [u for u in USES if any(u in PROVIDES.get(l, ()) for l in libs)]
                yield [('lib', ls, tuple(have), 0)]
                yield [('lib', ls, tuple(have[::-1]), 1)]
                yield [('lib', ls, tuple(have), 2)]
        for k, ns in ALIKE.items():
            for n in range(1, 4 if self.deep and k != 'h' else 3):
                for x in itertools.permutations(ns, n):
                    yield [('alike', k, x, 0)]
                    for i in range(1, 4 if k == 'h' else 2):
                        yield [('alike', k, x, i)]
        for k, (lim, deep) in BIG.items():
            for n in scale.SIZES:
                if n <= (deep if self.deep else lim):
                    yield [('big', k, n)]
        # the system's headers
        yield from pack((('sys', (h,)) for h in self.sys), 1)
        hs = [h for h in (self.sys if self.deep else MAIN) if h in self.sys]
        yield from pack((('sys', x) for x in itertools.permutations(hs, 2)), 1)
        hs = [h for h in (MAIN if self.deep else SMALL) if h in self.sys]
        yield from pack((('sess', x) for x in itertools.permutations(hs, 2)), 1)
        # decorations
        def decorated():
            for n, (t, _, _) in DECLS.items():
                at = re.findall('[@$%]', t)
                k = len(at)
                for i in range(k):
                    for d in DECOR[at[i]]:
                        yield 'dec', n, tuple(d if i == j else '' for j in range(k))
                for c in itertools.combinations(range(k), 3 if self.deep and k < 8 else 2):
                    for d in itertools.product(*(DECOR[at[i]] for i in c)):
                        yield 'dec', n, tuple(d[c.index(j)] if j in c else '' for j in range(k))
                for x in range(len(ATTR)):
                    yield 'dec', n, tuple(DECOR[a][x % len(DECOR[a])] for a in at)
        yield from pack(decorated(), 40)
        yield from pack((('pragma', n, i) for n in DECLS for i in range(4)), 8)
        yield from pack((('qual', q, i) for q in itertools.product(QUAL, repeat=3) for i in range(4)), 40)

    def spellings(self):
        """How a library may be given -> which it is."""
        return {'-lone': 'one', '-l one': 'one', '-l libone.so': 'one', '-l %s/libone.so' % self.libs: 'one', '-l ./libone.so': 'one', '-ltwo': 'two', '-l ../libs/libtwo.so': 'two',
                '-l ./four plug.in': 'four', '-lm': 'm', '-l libm.so.6': 'm', '-l missing': 'bad', '-l ./libtext.so': 'bad', '-l text': 'bad', '-l': 'none',
                '-ltwo-1.0': 'two', '-l o.n+e so': 'one', '-lone.so': 'bad'}

    # sessions: the paths are the labels
    def options(self, label):
        return dict(args=[x for d in json.loads(label) for x in ('-I', os.path.join(self.root, d))])

    def alphabets(self):
        def inc(spec, path):
            def m(st):
                l = dict(st.get('#h', {}))
                try:
                    load(l, spec, None, path)
                except Missing:
                    return FATAL
                st['#h'] = l
                return ANY
            return '#include ' + spec, m

        def use(text, n, f, without=FATAL):
            def m(st):
                k = st.get('#h', {}).get(n)
                return without if k is None else f(k, st)
            return text, m

        def own(n):
            N = n.upper()
            ty = lambda k: TY[k][1]

            def need(name, f):
                def m(k, st):
                    return f(k, st) if name in st else FATAL
                return m

            def dv(k, st):
                if 'v' + n in st:
                    return FATAL
                st['v' + n] = new(ty(k), wrap(ty(k), 300))
                return ANY

            def g(k, st):
                o = st['v' + n]
                if o[0] != ty(k):
                    return None
                o[1] = wrap(o[0], o[1] + k)
                return '%d\n' % abs(o[1])

            def ds(k, st):
                if 'x' + n in st:
                    return FATAL
                st['x' + n] = True
                return ANY

            def xm(k, st):
                st['x' + n] = 7
                return ANY

            # a line with a word that is no type yet is not well formed
            return [use('t%s v%s = 300;' % (n, n), n, dv, ERR), ('v%s;' % n, lambda st: show(st['v' + n]) + '\n' if 'v' + n in st else FATAL), use('g%s(&v%s) + M%s - F%s(1);' % (n, n, N, N), n, need('v' + n, g)),
                    use('struct s%s x%s;' % (n, n), n, ds), use('x%s.m = f%s(1) - f%s(0) - M%s + 7;' % (n, n, n, N), n, need('x' + n, xm)),
                    use('h%s(&x%s) + EE%s - E%s;' % (n, n, N, N), n, need('x' + n, lambda k, st: '%d\n' % ((0 if st['x' + n] is True else st['x' + n]) + 10 * k + 1)))]
        for p in self.paths():
            I = [inc(s, p) for s in ('<a.h>', '<b.h>', '"c.h"')]
            one = use('EEA + (int)sizeof(struct sa) * 100;', 'a', lambda k, st: '%d\n' % (10 * k + 1 + 100 * ((size(TY[k][1]) + k + 7) // 8 + 1) * 8))
            yield json.dumps(p), [], I + [one, own('b')[0], own('b')[2]], (3 if self.deep else 2)
        A, B = own('a'), own('b')
        for j, p in enumerate([('d1', 'd1x'), ('d1x', 'd1', "d 3'$x")] if not self.deep else [('d1', 'd1x'), ('d1x', 'd1'), ('d1x', 'd1', "d 3'$x"), ("d 3'$x", 'd1x')]):
            I = [inc(s, p) for s in ('<a.h>', '<b.h>', '"c.h"')]
            # JSON allows for spaces
            yield ' ' + json.dumps(p), [I[0], A[0], A[3]], I[1:] + [A[1], A[2], A[4], A[5], B[0], B[2]], 4 if self.deep else 3

        # names of a header that the session declares, too, are the session's
        p = '  ' + json.dumps(['shadow'])

        def incl(text):
            def m(st):
                # what headers define starts anew
                st['#hv'] = new(SHORT, 3) if text[1] == 'h' or '#hv' in st else None
                if st['#hv'] is None:
                    del st['#hv']
                return ANY
            return '#include ' + text, m

        def decl(text, n):
            def m(st):
                if n in st and n != 'ty':
                    return FATAL
                st[n] = new(LONG)
                return ANY
            return text, m

        def see(text, n, own, theirs):
            return text, lambda st: own(st) if n in st else theirs(st) if '#hv' in st else FATAL

        def put(o, v):
            o[1] = wrap(o[0], v)
            return show(o) + '\n'
        const = lambda v: lambda st: '%d\n' % v
        X = [incl('<h.h>'), incl('"g.h"'), decl('long thing;', 'thing'), see('thing = 70000;', 'thing', lambda st: put(st['thing'], 70000), lambda st: put(st['#hv'], 70000)),
             see('thing;', 'thing', lambda st: show(st['thing']) + '\n', lambda st: show(st['#hv']) + '\n'), see('sizeof(thing);', 'thing', const(8), const(2)),
             decl('struct st { int a; int b[4]; };', 'st'), see('sizeof(struct st);', 'st', const(20), const(1)), decl('union un { long a; };', 'un'), see('sizeof(union un);', 'un', const(8), const(3)),
             decl('enum { KK = 9 };', 'KK'), see('KK + 1;', 'KK', const(10), const(6)), decl('typedef long ty;', 'ty'), see('sizeof(ty);', 'ty', const(8), const(2)),
             decl('static long fn = 6;', 'fn'), see('sizeof(fn) + fn;', 'fn', const(14), lambda st: FATAL), see('fn(1);', 'fn', lambda st: FATAL, const(2))]
        yield p, [], X, 3 if self.deep else 2
        yield p + ' ', [X[0]], X, 3 if self.deep else 2
        yield p + '  ', [X[2], X[3], X[6], X[10], X[12], X[14]], X, 3 if self.deep else 2

    # -- running
    def key(self, c):
        if c[0] == 'inc':
            return 'script: -I %s, #include %s%s' % (' '.join(c[1]), ' '.join(c[2]), ', style %d' % c[3] if c[3] else '')
        if c[0] == 'lib':
            return 'libraries %s, %s %s' % (' '.join(c[1]).replace(self.libs, 'DIR'), ('script calling', 'script on the command line before', 'session calling')[c[3]], ' '.join(c[2]))
        if c[0] in ('sys', 'sess'):
            return ('script' if c[0] == 'sys' else 'session') + ' with <%s>' % '>, <'.join(c[1])
        if c[0] == 'big':
            return '%s, size %d' % c[1:]
        if c[0] == 'alike':
            return '%s with %s alike: %s' % ('session' if c[3] else 'script', {'h': 'headers', 'd': 'directories', 'l': 'libraries'}[c[1]], ', '.join(c[2]))
        if c[0] in ('dec', 'pragma', 'qual'):
            return 'declaration: ' + self.decl(c)[0]
        return 'session: ' + super().key(c)

    def stats(self, cases):
        c = cases[0]
        if c[0] == 'big':
            return c[2], c[2]
        if c[0] == 'alike':
            return 4 * len(c[2]), 4 * len(c[2])
        if c[0] == 'inc':
            return len(c[2]) + 1, len(c[2])
        if c[0] == 'lib':
            return len(c[1]) + len(c[2]) + 1, len(c[1]) + len(c[2])
        if c[0] in ('sys', 'sess'):
            n = sum(len(SYS[h]) for h in c[1]) + len(c[1])
            return n, n
        if c[0] in ('dec', 'pragma', 'qual'):
            return len(cases), len(cases)
        return super().stats(cases)

    def decl(self, c):
        if c[0] == 'dec':
            t, u, r = DECLS[c[1]]
            d = iter(c[2])
            t = re.sub('[@$%]', lambda m: ' %s ' % next(d), t)
            return re.sub(' +', ' ', t), u, r
        if c[0] == 'pragma':
            t, u, r = DECLS[c[1]]
            t = re.sub('[@$%]', '', t)
            p = ['#pragma once', '#pragma GCC diagnostic ignored "-Wx"', '# pragma (', '#pragma'][c[2]]
            # where lines may end
            return '%s\n%s\n%s\n' % (p, t.replace('; ', ';\n%s\n' % p).replace('{ ', '{\n%s\n' % p), p), u, r
        q, i = c[1:]
        return [('%s int %s v = 3; %s int w = 1;' % q, 'v + w', 4), ('int *%s p; char *%s *%s q; int i;' % q, '(p == 0) + (q == 0)', 2),
                ('int f(%s int %s a, %s char *b) { return a + b[0]; }' % q, 'f(1, "A")', 66),
                ('struct s { %s int %s a; char *%s b; } x; typedef unsigned long UL;' % q, '(x.a = 3) + sizeof(struct s)', 19)][i]

    def expected_inc(self, c):
        """(what a script must print, whether it must end with an error)"""
        path = c[1]
        loaded, o, out = {}, {}, ''
        for s in c[2]:
            try:
                load(loaded, s, 'here' if c[3] != 5 else None, path)
            except Missing:
                return '', True
        loaded = {}
        for s in c[2]:
            load(loaded, s, 'here' if c[3] != 5 else None, path)
            for n in sorted(loaded):
                o.setdefault(n, loaded[n] + 5)
                out += used(n, loaded[n], o[n])
                o[n] += 1
            out += '\n'
        return out + 'end\n', False

    def run_inc(self, h, c, real=False):
        path, specs, style = c[1:]
        src, loaded = PROTO, {}
        for s in specs:
            src += '#include %s\n' % s
            try:
                load(loaded, s, 'here' if style != 5 else None, path)
            except Missing:
                pass
            src += ''.join(uses(n) for n in sorted(loaded)) + 'printf("\\n");\n'
        src += 'printf("end\\n");\n'
        # scripts of their own next to headers of their own
        d = os.path.join(h.scratch, 'here')
        if not os.path.isdir(d):
            os.makedirs(d)
            for f in DIRS['here']:
                open(d + '/%s.h' % f, 'w').write(header(f, 'here'))
            for p in list(DIRS) + ['empty']:
                if p != 'here':
                    os.symlink(os.path.join(self.root, p), os.path.join(h.scratch, p))
        open(d + '/t.c', 'w').write(src)
        if style == 5:
            open(h.scratch + '/u.c', 'w').write(src)
        opts = []
        for p in path:
            opts += [['-I', os.path.join(self.root, p)], ['-I' + os.path.join(self.root, p)], ['-I', p], ['-I' + p + '/'], ['-I', './' + p + '//'], ['-I', p]][style]
        argv, cwd = {0: (['-s', 't.c'], d), 1: (['-s', 't.c'], d), 2: (['-s', 'here/t.c'], h.scratch), 3: (['-s', d + '/t.c'], h.scratch), 4: (['-shere/t.c'], h.scratch), 5: (['-s', 'u.c'], h.scratch)}[style]
        return h.real(opts + argv, cwd=cwd) if real else h.request(['bic', *opts, *argv], cwd=cwd)

    def expected_lib(self, c):
        """(what each use prints until the first that fails, whether one does), or None when a library can't be opened"""
        sp = self.spellings()
        # what follows the script is for the script
        libs = [sp[l] for l in c[1]] if c[3] != 1 else []
        if 'bad' in libs or 'none' in libs:
            return None
        out, fails = [], False
        n = {}
        for u in c[2]:
            l = next((l for l in libs if u in PROVIDES[l]), None)
            if l is None and u == 'floor':
                return 'any'    # the C library may well have it
            if l is None:
                fails = True
                break
            if u == 'which':
                out.append('%d|' % {'one': 1, 'two': 2, 'four': 4}[l])
            elif u == 'count':
                out.append('12|' if l == 'one' else '100100|')
            else:
                out.append(USES[u][2])
        return out, fails

    def lib_lines(self, c):
        """A session using libraries, and what each line must print."""
        lines, want = ['int printf(const char *f, ...);'], [ANY]
        for u in c[2]:
            for l in USES[u][0].splitlines():
                lines.append(l)
                want.append(ANY)
        for u, o in zip(c[2], self.expected_lib(c)[0] if self.expected_lib(c) not in (None, 'any') else []):
            # no functions are defined in a session
            ls = USES[u][1].replace('two(inc, 5)', '7').strip().replace('; printf', ';\nprintf').split('\n')
            k = len(o) - 1 if u != 'count' else (len(o) - 1) // 2
            for l, x in zip(ls, [o] if len(ls) == 1 else [None, o] if u == 'one' else [o[:k], o[k:]]):
                lines.append(l)
                want.append(ANY if x is None else '%s%d\n' % (x, len(x)))
        return lines, want

    def run_lib(self, h, c, real=False):
        opts = []
        for l in c[1]:
            opts += l.split(' ', 1)
        inc = 'int inc(int x) { return x + 1; }\n'
        if c[3] == 2:
            return None if real else h.request(['bic', *opts], lines=self.lib_lines(c)[0], cwd=self.libs)
        t = PROTO + inc + ''.join(USES[u][0] + USES[u][1] for u in c[2]) + 'printf("end\\n");\n'
        p = os.path.join(h.scratch, 'lib.c')
        argv = ['bic', '-s', p, *opts] if c[3] == 1 else ['bic', *opts, '-s', p]
        if real:
            open(p, 'w').write(t)
            return h.real(argv[1:], cwd=self.libs)
        return h.request(argv, script='# 0 "lib.c"\n# 1 "lib.c"\n' + t, cwd=self.libs)

    def run_big(self, h, c, real):
        root = os.path.join(h.scratch, 'big')
        os.makedirs(root)
        f, opts, t, ls, _ = big(*c[1:], root, self.libs)
        for n, x in f.items():
            os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
            open(os.path.join(root, n), 'w').write(x)
        open(root + '/t.c', 'w').write(t)
        try:
            if ls:
                return None if real else h.request(['bic', *opts], lines=[l for l, _ in ls], cwd=root)
            return h.real([*opts, '-s', 't.c'], cwd=root) if real else h.request(['bic', *opts, '-s', 't.c'], cwd=root)
        finally:
            shutil.rmtree(root)

    def execute(self, h, cases, real=False):
        c = cases[0]
        if c[0] == 'big':
            return self.run_big(h, c, real)
        if c[0] == 'alike':
            opts, t, ls = alike(*c[1:], self.root)
            if c[3]:
                return None if real else h.request(['bic', *opts], lines=[l for l, _ in ls], cwd=self.libs)
            p = os.path.join(h.scratch, 'alike.c')
            open(p, 'w').write(t)
            return h.real([*opts, '-s', p], cwd=self.libs) if real else h.request(['bic', *opts, '-s', p], cwd=self.libs)
        if c[0] == 'inc':
            return self.run_inc(h, c, real)
        if c[0] == 'lib':
            return self.run_lib(h, c, real)
        if c[0] == 'sys':
            t = 'int printf(const char *f, ...);\nint n = 0;\nchar buf[99];\n' if 'stdio.h' not in c[1] else 'int n = 0;\nchar buf[99];\n'
            for i, hd in enumerate(c[1]):
                t += '#include <%s>\n' % hd
                for x in c[1][:i + 1] if 'stdio.h' not in c[1][i + 1:] else ():
                    t += ''.join('n = 0; printf("%%ld\\n", (long)(%s));\n' % e for e in SYS[x])
            p = os.path.join(h.scratch, 'sys.c')
            open(p, 'w').write(t)
            return h.real(['-s', p]) if real else h.request(['bic', '-s', p])
        if c[0] == 'sess':
            return None if real else h.request(['bic'], lines=self.sess_lines(c)[0])
        if c[0] in ('dec', 'pragma', 'qual'):
            ds = [self.decl(x) for x in cases]
            return [(h.real_script if real else h.script)(PROTO + 'int inc(int x) { return x + 1; }\n' + t + '\nprintf("%%ld\\n", (long)(%s));\n' % u) for t, u, r in ds]
        return super().execute_real(h, cases) if real else super().execute(h, cases)

    def sess_lines(self, c):
        lines, want = ['int n;', 'char buf[99];'], [ANY, ANY]
        for i, hd in enumerate(c[1]):
            lines.append('#include <%s>' % hd)
            want.append(ANY)
            es = [(e, v) for x in c[1][:i + 1] for e, v in list(zip(SYS[x], self.sys[x]))[-3:] if 'scanf' not in e]
            # one line; a line takes a run of the preprocessor
            lines.append('long r%d[%d];' % (i, len(es)))
            want.append(ANY)
            lines.append(', '.join('r%d[%d] = (long)(%s)' % (i, j, e) for j, (e, _) in enumerate(es)) + ', 0;')
            want.append('0\n')
            lines.append(' && '.join('r%d[%d] == %sL' % (i, j, v) if v != '-9223372036854775808' else 'r%d[%d] < -9223372036854775807L' % (i, j) for j, (_, v) in enumerate(es)) + ';')
            want.append('1\n')
        return lines, want

    def execute_real(self, h, cases):
        res = self.execute(h, cases[:4], True)
        if cases[0][0] == 'pragma':
            for r in res:
                if 'warning: #pragma once in main file' in r.err and 'error' not in r.err:
                    r.err = ''     # that's the compiler's preprocessor
        return res

    def request(self, cases):
        c = cases[0]
        if c[0] == 'sess':
            return 'session', dict(lines=self.sess_lines(c)[0])
        if c[0] in ('inc', 'lib', 'sys', 'big', 'alike'):
            return 'script', dict(text=self.key(c))
        if c[0] in ('dec', 'pragma', 'qual'):
            return 'script', dict(text='\n'.join(self.decl(x)[0] for x in cases))
        return super().request(cases)

    def judge(self, cases, r):
        c = cases[0]
        if c[0] == 'alike':
            _, _, ls = alike(*c[1:], '')
            if c[3]:
                return self.judge_lines(*zip(*ls), r)
            w = ''.join(o for _, o in ls if o is not ANY)
            if (r.ended, r.out, r.err) != ('exit 0', w, ''):
                return 'must print %r, printed %r; %s, %r' % (w, r.out[-300:], r.ended, r.err[:300])
            return None
        if c[0] == 'big':
            _, _, _, ls, out = big(*c[1:], '', '')
            if ls:
                return self.judge_lines(*zip(*ls), r)
            if (r.ended, r.out, r.err) != ('exit 0', out, ''):
                return 'must print %r, printed %r; %s, %r' % (out[-300:], r.out[-300:], r.ended, r.err[:300])
            return None
        if c[0] == 'inc':
            out, bad = self.expected_inc(c)
            if bad:
                if r.out or r.sig or r.timeout or not r.rc or not r.err:
                    return 'a header is missing, must be reported and nothing be executed: %s, printed %r, reported %r' % (r.ended, r.out[:200], r.err[:200])
                return None
            if (r.ended, r.out, r.err) != ('exit 0', out, ''):
                return 'must print %r, printed %r; %s, %r' % (out, r.out[:600], r.ended, r.err[:300])
            return None
        if c[0] == 'lib':
            w = self.expected_lib(c)
            if w == 'any':
                return None
            if w is None:
                if r.out.replace('\x01\n', '') or r.sig or r.timeout or not r.rc or not r.err:
                    return 'a library can not be opened, must be reported and nothing be executed: %s, printed %r, reported %r' % (r.ended, r.out[:200], r.err[:200])
                return None
            out, fails = w
            if c[3] == 2:
                return self.judge_lines(*self.lib_lines(c), r)
            if fails:
                if r.out != ''.join(out) or r.sig or r.timeout or not r.rc or not r.err:
                    return 'must print %r and fail, printed %r; %s, %r' % (out, r.out, r.ended, r.err[:200])
                return None
            if (r.ended, r.out, r.err) != ('exit 0', ''.join(out) + 'end\n', ''):
                return 'must print %r, printed %r; %s, %r' % (out, r.out[:300], r.ended, r.err[:300])
            return None
        if c[0] == 'sys':
            w = [v for i, hd in enumerate(c[1]) if 'stdio.h' not in c[1][i + 1:] for x in c[1][:i + 1] for v in self.sys[x]]
            if (r.ended, r.out.split(), r.err) != ('exit 0', w, ''):
                return 'gcc gives %s, bic %s; %s, %r' % (w, r.out.split(), r.ended, r.err[:300])
            return None
        if c[0] == 'sess':
            return self.judge_lines(*self.sess_lines(c), r)
        if c[0] in ('dec', 'pragma', 'qual'):
            for x, y in zip(cases, r):
                t, u, v = self.decl(x)
                if (y.ended, y.out, y.err) != ('exit 0', '%d\n' % v, ''):
                    return '%r: %s must be %d: printed %r, %s, %r' % (t, u, v, y.out, y.ended, y.err[:200])
            return None
        return super().judge(cases, r)

    def judge_lines(self, lines, want, r):
        o, e = r.out.split('\x01\n')[1:], r.err.split('\x01\n')[1:]
        for i, (l, w) in enumerate(zip(lines, want)):
            if i >= len(o) or i >= len(e):
                return 'the session ended before %r: %s, %r' % (l, r.ended, r.err[-300:])
            if e[i].strip() or w is not ANY and o[i] != w:
                return '%r printed %r, must print %r; reported %r' % (l, o[i][:200], w, e[i][:300])
        return None if r.ended == 'exit 0' else 'the session ended with %s' % r.ended


if __name__ == '__main__':
    sys.exit(engine.main(C23))
