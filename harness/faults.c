// Preloaded: makes one operation on one file fail, at a given byte offset.
//   FAULT_PATH   files whose path ends with this
//   FAULT_OP     open, read, write, close, short (transfers of one byte), mkdir, rename, stat
//   FAULT_AT     number of bytes to let through first (read, write)
//   FAULT_ERRNO  the error
//   FAULT_IN     only in programs whose name has this
//   FAULT_TIMES  how often it happens (always)
//   FAULT_LOG    a line is appended here each time the fault happens
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static const char *fpath, *fop, *flog;
static long fat, ftimes;
static int ferrno_, ready;
static struct { int used; long done; int writing; } fds[4096];

static void
init(void)
{
    if (ready)
        return;
    ready = 1;
    fpath = getenv("FAULT_PATH");
    fop = getenv("FAULT_OP");
    flog = getenv("FAULT_LOG");
    fat = getenv("FAULT_AT") ? atol(getenv("FAULT_AT")) : 0;
    ferrno_ = getenv("FAULT_ERRNO") ? atoi(getenv("FAULT_ERRNO")) : EIO;
    ftimes = getenv("FAULT_TIMES") ? atol(getenv("FAULT_TIMES")) : -1;
    if (fop == NULL || (getenv("FAULT_IN") && NULL == strstr(program_invocation_name, getenv("FAULT_IN"))))
        fop = fpath = NULL;
}

static void
hit(const char *what)
{
    int e = errno;
    if (ftimes > 0)
        ftimes--;
    if (flog != NULL) {
        int fd = syscall(SYS_openat, AT_FDCWD, flog, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {
            char b[64];
            int n = snprintf(b, sizeof(b), "%s %d\n", what, getpid());
            syscall(SYS_write, fd, b, n);
            syscall(SYS_close, fd);
        }
    }
    errno = e;
}

static int
match(const char *p)
{
    init();
    if (fpath == NULL || p == NULL)
        return 0;
    size_t a = strlen(p), b = strlen(fpath);
    return a >= b && 0 == strcmp(p + a - b, fpath);
}

static int
op(const char *o)
{
    return fop != NULL && ftimes != 0 && 0 == strcmp(fop, o);
}

static ssize_t
do_read(int fd, void *buf, size_t n)
{
    if (op("read")) {
        long left = fat - fds[fd].done;
        if (left <= 0) {
            hit("read");
            errno = ferrno_;
            return -1;
        }
        if (n > (size_t) left)
            n = left;
    }
    else if (op("short") && n > 1)
        n = 1;
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (r > 0)
        fds[fd].done += r;
    return r;
}

static ssize_t
do_write(int fd, const void *buf, size_t n)
{
    if (op("write") && n > 0) {
        long left = fat - fds[fd].done;
        if (left <= 0) {
            hit("write");
            errno = ferrno_;
            return -1;
        }
        if (n > (size_t) left)
            n = left;
    }
    else if (op("short") && n > 1)
        n = 1;
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (r > 0)
        fds[fd].done += r;
    return r;
}

static int
do_close(int fd)
{
    int w = fds[fd].writing;
    fds[fd].used = 0;
    int r = syscall(SYS_close, fd);
    if (op("close") && w) {
        hit("close");
        errno = ferrno_;
        return -1;
    }
    return r;
}

static int
do_open(int dir, const char *path, int flags, mode_t mode)
{
    if (op("open")) {
        hit("open");
        errno = ferrno_;
        return -1;
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 4096) {
        fds[fd].used = 1;
        fds[fd].done = 0;
        fds[fd].writing = (flags & O_ACCMODE) != O_RDONLY;
    }
    return fd;
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (fd >= 0 && fd < 4096 && fds[fd].used)
        return do_read(fd, buf, n);
    return syscall(SYS_read, fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (fd >= 0 && fd < 4096 && fds[fd].used)
        return do_write(fd, buf, n);
    return syscall(SYS_write, fd, buf, n);
}

int close(int fd)
{
    if (fd >= 0 && fd < 4096 && fds[fd].used)
        return do_close(fd);
    return syscall(SYS_close, fd);
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    va_list ap; \
    va_start(ap, flags); \
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
    va_end(ap); \
    if (match(path)) \
        return do_open(AT_FDCWD, path, flags, mode); \
    return syscall(SYS_openat, AT_FDCWD, path, flags, mode); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    va_list ap; \
    va_start(ap, flags); \
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
    va_end(ap); \
    if (match(path)) \
        return do_open(dir, path, flags, mode); \
    return syscall(SYS_openat, dir, path, flags, mode); \
}
OPENAT(openat)
OPENAT(openat64)

int creat(const char *path, mode_t mode)
{
    return open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
}

static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int) (long) c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    // stdio would take a short transfer for the end: go on, as its own files do
    size_t done = 0;
    while (done < n) {
        ssize_t r = do_write((int) (long) c, b + done, n - done);
        if (r <= 0)
            break;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w)
{
    off64_t r = lseek64((int) (long) c, *o, w);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) { return do_close((int) (long) c); }

#define FOPEN(name) \
FILE *name(const char *path, const char *mode) \
{ \
    static FILE *(*real)(const char*, const char*); \
    if (real == NULL) \
        real = dlsym(RTLD_NEXT, #name); \
    if (!match(path)) \
        return real(path, mode); \
    int flags = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND; \
    if (strchr(mode, '+')) \
        flags = (flags & ~O_ACCMODE) | O_RDWR; \
    if (strchr(mode, 'x')) \
        flags |= O_EXCL; \
    int fd = do_open(AT_FDCWD, path, flags, 0666); \
    if (fd < 0) \
        return NULL; \
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; \
    return fopencookie((void*) (long) fd, mode, io); \
}
FOPEN(fopen)
FOPEN(fopen64)

int mkdir(const char *path, mode_t mode)
{
    if (match(path) && op("mkdir")) {
        hit("mkdir");
        errno = ferrno_;
        return -1;
    }
    return syscall(SYS_mkdirat, AT_FDCWD, path, mode);
}

int rename(const char *a, const char *b)
{
    if ((match(b) || match(a)) && op("rename")) {
        hit("rename");
        errno = ferrno_;
        return -1;
    }
    return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}

DIR *opendir(const char *path)
{
    static DIR *(*real)(const char*);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "opendir");
    if (match(path) && op("opendir")) {
        hit("opendir");
        errno = ferrno_;
        return NULL;
    }
    return real(path);
}

// a temporary file is named by its template
#define MKSTEMP(name) \
int name(char *t) \
{ \
    static int (*real)(char*); \
    if (real == NULL) \
        real = dlsym(RTLD_NEXT, #name); \
    int m = match(t); \
    if (m && op("open")) { \
        hit("open"); \
        errno = ferrno_; \
        return -1; \
    } \
    int fd = real(t); \
    if (m && fd >= 0 && fd < 4096) { \
        fds[fd].used = 1; \
        fds[fd].done = 0; \
        fds[fd].writing = 1; \
    } \
    return fd; \
}
MKSTEMP(mkstemp)
MKSTEMP(mkstemp64)

// FAULT_OP fork or pipe: the FAULT_AT-th of them
static int
nth(const char *what)
{
    static long n;
    init();
    if (!op(what) || n++ != fat)
        return 0;
    hit(what);
    errno = ferrno_;
    return 1;
}

pid_t fork(void)
{
    static pid_t (*real)(void);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "fork");
    return nth("fork") ? -1 : real();
}

int pipe(int p[2])
{
    return nth("pipe") ? -1 : syscall(SYS_pipe2, p, 0);
}

int pipe2(int p[2], int flags)
{
    return nth("pipe") ? -1 : syscall(SYS_pipe2, p, flags);
}

int poll(struct pollfd *f, nfds_t n, int t)
{
    return nth("poll") ? -1 : syscall(SYS_poll, f, n, t);
}
