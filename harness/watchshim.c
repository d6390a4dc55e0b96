// Preloaded into blogc-make. A sleep of at least half a second in its main thread is a
// poll: $WATCH_LOG gets a line "B <ms>", and the sleep lasts until a byte comes from the
// fifo $WATCH_GATE or a signal arrives, then follows "E". Shorter sleeps go on as they are
// but for $WATCH_FAST, that divides them. "T <path>" is written for each temporary file.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static void
event(const char *s)
{
    const char *log = getenv("WATCH_LOG");
    if (log == NULL)
        return;
    int fd = open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd >= 0) {
        if (write(fd, s, strlen(s)) < 0)
            ;
        close(fd);
    }
}

static int
wait_for(long ms)
{
    const char *name = program_invocation_short_name;
    if (ms <= 0 || (strncmp(name, "blogc-make", 10) && strncmp(name, "blogc-embedded", 14)))
        goto plain;
    const char *gate = getenv("WATCH_GATE");
    if (ms < 500 || gate == NULL || getpid() != syscall(SYS_gettid)) {
        const char *f = getenv("WATCH_FAST");
        if (f != NULL && atol(f) > 0)
            ms = ms / atol(f) + 1;
        goto plain;
    }
    int fd = open(gate, O_RDWR | O_CLOEXEC);
    if (fd < 0)
        goto plain;
    char b[40];
    snprintf(b, sizeof(b), "B %ld\n", ms);
    event(b);
    struct pollfd p = {fd, POLLIN, 0};
    int rv = poll(&p, 1, -1);
    int e = errno;
    if (rv > 0 && read(fd, b, 1) < 0)
        ;
    close(fd);
    event("E\n");
    errno = e;
    return rv < 0 ? -1 : 0;
plain:;
    struct timespec t = {ms / 1000, ms % 1000 * 1000000};
    return syscall(SYS_nanosleep, &t, NULL);
}

unsigned int
sleep(unsigned int n)
{
    int e = errno;
    int rv = wait_for((long) n * 1000);
    errno = e;
    return rv == 0 ? 0 : 1;
}

int
usleep(useconds_t n)
{
    if (n < 1000) {
        struct timespec t = {0, n * 1000};
        return syscall(SYS_nanosleep, &t, NULL);
    }
    return wait_for(n / 1000);
}

int
nanosleep(const struct timespec *t, struct timespec *rem)
{
    long ms = t->tv_sec * 1000 + t->tv_nsec / 1000000;
    if (ms < 500)
        return syscall(SYS_nanosleep, t, rem);
    int rv = wait_for(ms);
    if (rv < 0 && rem != NULL)
        *rem = *t;
    return rv;
}

int
clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
    if (flags == 0)
        return nanosleep(t, rem) < 0 ? errno : 0;
    return syscall(SYS_clock_nanosleep, c, flags, t, rem) < 0 ? errno : 0;
}

int
mkstemp(char *t)
{
    static int (*real)(char*);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "mkstemp");
    int fd = real(t);
    if (fd >= 0) {
        char b[4200];
        snprintf(b, sizeof(b), "T %s\n", t);
        event(b);
    }
    return fd;
}
