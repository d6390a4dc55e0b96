// Preloaded into the pre-receive hook: logs every call that changes the file
// tree together with where the deployed link points just before it.
//   HW_LOG   log file      HW_LINK  the link to watch
//   HW_KILL  die before the n-th logged call
//   HW_FAIL  op:n:errno    the n-th call of that operation fails
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int state = -1, count, seen;
static const char *logf_, *link_, *failop;
static int killat = -1, failn, faile;

static int
active(void)
{
    if (state < 0) {
        const char *n = program_invocation_short_name;
        state = n != NULL && 0 == strcmp(n, "pre-receive") && getenv("HW_LOG") != NULL;
        logf_ = getenv("HW_LOG");
        link_ = getenv("HW_LINK");
        if (getenv("HW_KILL"))
            killat = atoi(getenv("HW_KILL"));
        static char f[64];
        if (getenv("HW_FAIL")) {
            snprintf(f, sizeof(f), "%s", getenv("HW_FAIL"));
            char *p = strchr(f, ':');
            *p++ = 0;
            failop = f;
            failn = atoi(p);
            faile = atoi(strchr(p, ':') + 1);
        }
    }
    return state;
}

static void
hex(char *b, size_t *n, const char *s)
{
    if (s == NULL)
        b[(*n)++] = '-';
    else
        for (b[(*n)++] = 'x'; *s && *n < 16000; s++)
            *n += sprintf(b + *n, "%02x", (unsigned char) *s);
    b[(*n)++] = ' ';
}

// returns an errno to fail with, or 0
static int
note(const char *op, const char *a, const char *c)
{
    if (!active())
        return 0;
    int e = errno;
    static char b[65536];
    size_t n = sprintf(b, "%d %s ", getpid(), op);
    char cwd[8192], t[4096];
    hex(b, &n, syscall(SYS_getcwd, cwd, sizeof(cwd)) > 0 ? cwd : NULL);
    hex(b, &n, a);
    hex(b, &n, c);
    long k = link_ != NULL ? syscall(SYS_readlinkat, AT_FDCWD, link_, t, sizeof(t) - 1) : -1;
    t[k < 0 ? 0 : k] = 0;
    hex(b, &n, k < 0 ? NULL : t);
    char m[8300];
    snprintf(m, sizeof(m), "%s/complete", link_ ? link_ : "");
    int fd = syscall(SYS_openat, AT_FDCWD, m, O_RDONLY);
    char tok[64] = "";
    if (fd >= 0) {
        k = syscall(SYS_read, fd, tok, 63);
        tok[k < 0 ? 0 : k] = 0;
        syscall(SYS_close, fd);
    }
    hex(b, &n, fd >= 0 ? tok : NULL);
    b[n++] = '\n';
    fd = syscall(SYS_openat, AT_FDCWD, logf_, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, n);
        syscall(SYS_close, fd);
    }
    if (count++ == killat)
        syscall(SYS_kill, getpid(), SIGKILL);
    if (failop != NULL && 0 == strcmp(op, failop) && ++seen == failn)
        return faile;
    errno = e;
    return 0;
}

#define REAL(name) ((__typeof__(&name)) dlsym(RTLD_NEXT, #name))
#define W1(name, a) int name(const char *a) { int f = note(#name, a, NULL); if (f) { errno = f; return -1; } return REAL(name)(a); }
W1(unlink, p)
W1(rmdir, p)
W1(remove, p)
int unlinkat(int d, const char *p, int fl) { int f = note("unlinkat", p, NULL); if (f) { errno = f; return -1; } return REAL(unlinkat)(d, p, fl); }
int rename(const char *a, const char *b) { int f = note("rename", a, b); if (f) { errno = f; return -1; } return REAL(rename)(a, b); }
int renameat(int d, const char *a, int e, const char *b) { int f = note("rename", a, b); if (f) { errno = f; return -1; } return REAL(renameat)(d, a, e, b); }
int symlink(const char *a, const char *b) { int f = note("symlink", a, b); if (f) { errno = f; return -1; } return REAL(symlink)(a, b); }
int symlinkat(const char *a, int d, const char *b) { int f = note("symlink", a, b); if (f) { errno = f; return -1; } return REAL(symlinkat)(a, d, b); }
int mkdir(const char *p, mode_t m) { int f = note("mkdir", p, NULL); if (f) { errno = f; return -1; } return REAL(mkdir)(p, m); }
int chmod(const char *p, mode_t m) { int f = note("chmod", p, NULL); if (f) { errno = f; return -1; } return REAL(chmod)(p, m); }
int chdir(const char *p) { int f = note("chdir", p, NULL); if (f) { errno = f; return -1; } return REAL(chdir)(p); }
int system(const char *p) { note("system", p, NULL); return REAL(system)(p); }

char *
mkdtemp(char *t)
{
    int f = note("mkdtemp-before", t, NULL);
    if (f) {
        errno = f;
        return NULL;
    }
    char *r = REAL(mkdtemp)(t);
    if (r != NULL) {
        int k = killat;
        killat = -1;
        count--;
        note("mkdtemp", r, NULL);
        killat = k;
    }
    return r;
}
