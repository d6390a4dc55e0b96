// Preloaded: gives the program made-up facts about the system.
//   FAKE_HOST     name of the machine (unset: the question fails)
//   FAKE_CANON    its canonical name (unset: it does not resolve)
//   FAKE_TIME     seconds since the epoch (unset: the question fails)
//   FAKE_UTIME, FAKE_STIME  microseconds of CPU time at the first question (unset: the question fails)
//   FAKE_MEM      kilobytes at the first question
//   FAKE_STEP     what each later question finds more
//   FAKE_CGROUP   file to show instead of /proc/1/cgroup (unset: it can not be opened)
//   FAKE_LOG      a line for each question
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

static void
said(const char *what)
{
    const char *l = getenv("FAKE_LOG");
    int e = errno;
    if (l != NULL) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {
            syscall(SYS_write, fd, what, strlen(what));
            syscall(SYS_write, fd, "\n", 1);
            syscall(SYS_close, fd);
        }
    }
    errno = e;
}

int
gethostname(char *name, size_t len)
{
    const char *h = getenv("FAKE_HOST");
    said("host");
    if (h == NULL) {
        errno = EPERM;
        return -1;
    }
    if (strlen(h) + 1 > len) {
        errno = ENAMETOOLONG;
        return -1;
    }
    strcpy(name, h);
    return 0;
}

int
uname(struct utsname *u)
{
    const char *h = getenv("FAKE_HOST");
    said("host");
    if (h == NULL || strlen(h) >= sizeof(u->nodename)) {
        errno = EPERM;
        return -1;
    }
    memset(u, 0, sizeof(*u));
    strcpy(u->nodename, h);
    strcpy(u->sysname, "Linux");
    return 0;
}

struct hostent*
gethostbyname(const char *name)
{
    static struct hostent e;
    static char *none[1];
    const char *h = getenv("FAKE_HOST");
    const char *c = getenv("FAKE_CANON");
    said("name");
    if (c == NULL || h == NULL || 0 != strcmp(h, name))
        return NULL;
    e.h_name = (char*) c;
    e.h_aliases = none;
    e.h_addr_list = none;
    return &e;
}

time_t
time(time_t *t)
{
    const char *f = getenv("FAKE_TIME");
    time_t rv = f == NULL ? -1 : atoll(f);
    said("time");
    if (t != NULL)
        *t = rv;
    return rv;
}

int
gettimeofday(struct timeval *restrict tv, void *restrict z)
{
    const char *f = getenv("FAKE_TIME");
    said("time");
    if (f == NULL)
        return -1;
    tv->tv_sec = atoll(f);
    tv->tv_usec = 0;
    return 0;
}

int
clock_gettime(clockid_t c, struct timespec *ts)
{
    const char *f = getenv("FAKE_TIME");
    if (c != CLOCK_REALTIME)
        return syscall(SYS_clock_gettime, c, ts);
    said("time");
    if (f == NULL)
        return -1;
    ts->tv_sec = atoll(f);
    ts->tv_nsec = 0;
    return 0;
}

int
getrusage(__rusage_who_t who, struct rusage *u)
{
    static long long calls;
    const char *a = getenv("FAKE_UTIME"), *b = getenv("FAKE_STIME"), *m = getenv("FAKE_MEM"), *s = getenv("FAKE_STEP");
    if (who != RUSAGE_SELF) {
        // the children and the thread used something else
        memset(u, 0, sizeof(*u));
        u->ru_utime.tv_sec = 12345;
        u->ru_maxrss = 54321;
        return 0;
    }
    said("usage");
    if (a == NULL) {
        errno = EFAULT;
        return -1;
    }
    long long step = calls++ * atoll(s);
    memset(u, 0, sizeof(*u));
    u->ru_utime.tv_sec = (atoll(a) + step) / 1000000;
    u->ru_utime.tv_usec = (atoll(a) + step) % 1000000;
    u->ru_stime.tv_sec = (atoll(b) + step) / 1000000;
    u->ru_stime.tv_usec = (atoll(b) + step) % 1000000;
    u->ru_maxrss = atoll(m) + step;
    u->ru_ixrss = 7;
    u->ru_idrss = 77;
    u->ru_isrss = 777;
    u->ru_minflt = 7777;
    return 0;
}

static const char*
subst(const char *path)
{
    if (path == NULL || 0 != strcmp(path, "/proc/1/cgroup"))
        return path;
    said("cgroup");
    const char *f = getenv("FAKE_CGROUP");
    return f == NULL ? "/nonexistent/cgroup" : f;
}

FILE*
fopen(const char *path, const char *mode)
{
    static FILE *(*real)(const char*, const char*);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "fopen");
    return real(subst(path), mode);
}

FILE*
fopen64(const char *path, const char *mode)
{
    return fopen(path, mode);
}

int
open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return syscall(SYS_openat, AT_FDCWD, subst(path), flags, mode);
}

int
open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return open(path, flags, mode);
}
