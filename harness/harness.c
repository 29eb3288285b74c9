/*
 * Exploration harness: bic's own objects (main renamed to bic_main) behind a
 * fork server. Each request runs the whole program, from its start, in a fresh
 * child with its own stdout and stderr, and the reply is the wait status, what
 * was written and the collector's statistics.
 *
 * Four functions that bic calls are wrapped, each falling back to the real one
 * unless the request asks otherwise:
 *
 *  popen/pclose  the preprocessor's output for the script is given in the
 *                request (it saves starting gcc for programs without
 *                directives; the checks validate a part of their cases on the
 *                real program with the real gcc)
 *  system        the preprocessor run on a REPL line, likewise, for lines that
 *                contain nothing to preprocess
 *  readline      takes the lines of the session from the request, separates
 *                the output of the lines and asks for completions
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <readline/readline.h>

extern int bic_main(int argc, char **argv);

/* The hook in gc.c, absent if the tree has lost it. */
extern int (*bic_verif_gc_hook)(void) __attribute__((weak));

enum { F_RAW_SCRIPT = 1, F_LINES = 2, F_PERTURB = 4 };

struct shared {
    uint64_t allocs, collections;
};
static struct shared *shared;

static uint32_t flags;
static char *script_text;
static uint32_t script_len;
static char **lines;
static uint32_t nr_lines, next_line;
static uint32_t gc_period, gc_phase, nr_gc_points, *gc_points;

static int gc_hook(void)
{
    uint64_t n = shared->allocs++;
    uint32_t i;
    int ret = 0;

    if (gc_period && n % gc_period == gc_phase)
        ret = 1;

    for (i = 0; i < nr_gc_points && gc_points[i] <= n; i++)
        if (gc_points[i] == n)
            ret = 1;

    shared->collections += ret;
    return ret;
}

/* popen. */
FILE *__real_popen(const char *cmd, const char *mode);
int __real_pclose(FILE *f);
static FILE *fake_pipe;

FILE *__wrap_popen(const char *cmd, const char *mode)
{
    if ((flags & F_RAW_SCRIPT) && !fake_pipe && strncmp(cmd, "gcc", 3) == 0 &&
        strstr(cmd, "-E")) {
        int fd = memfd_create("script", 0);

        if (write(fd, script_text, script_len) != (ssize_t)script_len)
            abort();
        lseek(fd, 0, SEEK_SET);
        return fake_pipe = fdopen(fd, "r");
    }

    return __real_popen(cmd, mode);
}

int __wrap_pclose(FILE *f)
{
    if (f && f == fake_pipe) {
        fclose(f);
        return 0;
    }

    return __real_pclose(f);
}

/* system. */
int __real_system(const char *cmd);

/* The preprocessor leaves these lines as they are. */
static int is_plain_line(const char *s, size_t len)
{
    size_t i;
    char quote = 0;

    if (len == 0)
        return 0;

    for (i = 0; i < len; i++) {
        if (s[i] < 32 || s[i] > 126)
            return 0;
        if (quote) {
            if (s[i] == '\\') {
                if (++i >= len || s[i] < 32 || s[i] > 126)
                    return 0;
            } else if (s[i] == quote)
                quote = 0;
            continue;
        }
        if (s[i] == '"' || s[i] == '\'') {
            quote = s[i];
            continue;
        }
        if (strchr("#\\/`@\t\n", s[i]))
            return 0;
        if (s[i] == '_' && i + 1 < len && s[i + 1] == '_')
            return 0;
        if (s[i] == ' ' && (i == 0 || i + 1 == len || s[i + 1] == ' '))
            return 0;
    }

    return !quote && !memmem(s, len, "linux", 5) && !memmem(s, len, "unix", 4);
}

int __wrap_system(const char *cmd)
{
    char in[64], out[64];
    static char text[1 << 18];
    const char *p;
    int fd;
    ssize_t len;

    if (!(flags & F_LINES) || strncmp(cmd, "gcc -E -P ", 10) != 0)
        return __real_system(cmd);

    p = strstr(cmd, " /tmp/bic.cpp.");
    if (!p || strstr(cmd, "-I") ||
        sscanf(p, " %63s > %63s", in, out) != 2 ||
        (fd = open(in, O_RDONLY)) == -1)
        return __real_system(cmd);

    len = read(fd, text, sizeof(text) - 1);
    close(fd);

    if (len < 0 || len == sizeof(text) - 1 || !is_plain_line(text, len))
        return __real_system(cmd);

    if ((fd = open(out, O_WRONLY | O_TRUNC)) == -1)
        return __real_system(cmd);

    text[len++] = '\n';
    if (write(fd, "\n", 1) != 1 || write(fd, text, len) != len)
        abort();
    close(fd);

    return 0;
}

/* readline. */
char *__real_readline(const char *prompt);

static void complete(const char *text)
{
    char **matches = NULL;
    int i;

    if (!rl_attempted_completion_function) {
        printf("\x02none\n");
        return;
    }

    matches = rl_attempted_completion_function(text, 0, strlen(text));
    printf("\x02");
    for (i = 0; matches && matches[i]; i++)
        printf("%s%s", i ? "|" : "", matches[i]);
    printf("\n");
}

char *__wrap_readline(const char *prompt)
{
    if (!(flags & F_LINES))
        return __real_readline(prompt);

    for (;;) {
        fflush(stdout);
        printf("\x01\n");
        fprintf(stderr, "\x01\n");
        fflush(stdout);

        if (next_line >= nr_lines)
            return NULL;

        /* The end of the input, for the program that asks now. */
        if (lines[next_line][0] == '\x04') {
            next_line++;
            return NULL;
        }

        if (lines[next_line][0] != '\t')
            return strdup(lines[next_line++]);

        complete(lines[next_line++] + 1);
    }
}

/* Requests. */
static void get(void *p, size_t n)
{
    char *c = p;

    while (n) {
        ssize_t r = read(0, c, n);

        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            _exit(0);
        c += r;
        n -= r;
    }
}

static void put(const void *p, size_t n)
{
    const char *c = p;

    while (n) {
        ssize_t r = write(1, c, n);

        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            _exit(1);
        c += r;
        n -= r;
    }
}

static char *cursor;

static uint32_t take_u32(void)
{
    uint32_t v;

    memcpy(&v, cursor, 4);
    cursor += 4;
    return v;
}

/* Strings are sent with their terminator. */
static char *take_str(uint32_t *len)
{
    uint32_t n = take_u32();
    char *ret = cursor;

    cursor += n + 1;
    if (len)
        *len = n;
    return ret;
}

static int out_fd, err_fd;

static void run_child(void)
{
    uint32_t i, argc, rlimit_mb, nr_env;
    char **argv, *cwd;
    struct rlimit rl = { 0, 0 };

    setpgid(0, 0);
    dup2(open("/dev/null", O_RDONLY), 0);
    dup2(out_fd, 1);
    dup2(err_fd, 2);

    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 16 << 20;
    setrlimit(RLIMIT_FSIZE, &rl);

    rlimit_mb = take_u32();
    if (rlimit_mb) {
        rl.rlim_cur = rl.rlim_max = (rlim_t)rlimit_mb << 20;
        setrlimit(RLIMIT_AS, &rl);
    }

    cwd = take_str(NULL);
    if (*cwd && chdir(cwd))
        _exit(99);

    nr_env = take_u32();
    for (i = 0; i < nr_env; i++)
        putenv(take_str(NULL));

    argc = take_u32();
    argv = calloc(argc + 1, sizeof(*argv));
    for (i = 0; i < argc; i++)
        argv[i] = strdup(take_str(NULL));

    script_text = take_str(&script_len);

    nr_lines = take_u32();
    lines = calloc(nr_lines + 1, sizeof(*lines));
    for (i = 0; i < nr_lines; i++)
        lines[i] = take_str(NULL);

    gc_period = take_u32();
    gc_phase = take_u32();
    nr_gc_points = take_u32();
    gc_points = calloc(nr_gc_points + 1, sizeof(*gc_points));
    for (i = 0; i < nr_gc_points; i++)
        gc_points[i] = take_u32();

    if (&bic_verif_gc_hook)
        bic_verif_gc_hook = gc_hook;

    if (flags & F_PERTURB)
        mallopt(M_PERTURB, 0xa5);

    exit(bic_main(argc, argv));
}

static void reply_file(int fd)
{
    uint32_t len = lseek(fd, 0, SEEK_END);
    static char buf[1 << 16];
    ssize_t n;

    if (len > 1 << 23)
        len = 1 << 23;
    put(&len, 4);
    lseek(fd, 0, SEEK_SET);
    while (len) {
        n = read(fd, buf, len < sizeof(buf) ? len : sizeof(buf));
        if (n <= 0)
            _exit(1);
        put(buf, n);
        len -= n;
    }
}

int main(void)
{
    shared = mmap(NULL, sizeof(*shared), PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    out_fd = memfd_create("out", MFD_CLOEXEC);
    err_fd = memfd_create("err", MFD_CLOEXEC);
    signal(SIGPIPE, SIG_DFL);

    for (;;) {
        uint32_t len, timeout_ms, timed_out = 0;
        int32_t status = 0;
        char *req;
        pid_t pid;
        int pidfd;
        struct pollfd pfd;

        get(&len, 4);
        req = malloc(len + 1);
        get(req, len);
        cursor = req;
        flags = take_u32();
        timeout_ms = take_u32();

        memset(shared, 0, sizeof(*shared));
        if (ftruncate(out_fd, 0) || ftruncate(err_fd, 0))
            return 1;
        lseek(out_fd, 0, SEEK_SET);
        lseek(err_fd, 0, SEEK_SET);

        pid = fork();
        if (pid == -1)
            return 1;
        if (!pid)
            run_child();

        setpgid(pid, pid);
        pidfd = syscall(SYS_pidfd_open, pid, 0);
        pfd.fd = pidfd;
        pfd.events = POLLIN;
        while ((len = poll(&pfd, 1, timeout_ms)) == (uint32_t)-1 && errno == EINTR)
            ;
        if (len == 0) {
            timed_out = 1;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
        }
        while (waitpid(pid, &status, 0) == -1 && errno == EINTR)
            ;
        kill(-pid, SIGKILL);
        close(pidfd);

        put(&status, 4);
        put(&timed_out, 4);
        put(shared, sizeof(*shared));
        reply_file(out_fd);
        reply_file(err_fd);
        free(req);
    }
}
