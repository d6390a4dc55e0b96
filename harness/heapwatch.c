// LD_PRELOAD for the plain build: keeps the number of live heap blocks and bytes in a
// mapped file ($HEAPWATCH), and can make accept() and pthread_create() fail and reads
// and writes of sockets short ($SRVFAULT = "accept:n:errno thread:n short:n", every n-th call).
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

struct shared {
    atomic_long blocks, bytes, allocs, threads, faults;
};
static struct shared dummy;
static struct shared *S = &dummy;
static long f_accept, f_accept_errno, f_thread, f_short;
static atomic_long n_accept, n_thread, n_short;

static void __attribute__((constructor))
init(void)
{
    const char *p = getenv("HEAPWATCH");
    if (p != NULL) {
        int fd = open(p, O_RDWR);
        if (fd >= 0) {
            void *m = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
            if (m != MAP_FAILED) {
                struct shared *n = m;
                n->blocks = dummy.blocks;
                n->bytes = dummy.bytes;
                S = n;
            }
        }
    }
    p = getenv("SRVFAULT");
    if (p != NULL) {
        const char *q;
        if ((q = strstr(p, "accept:")))
            sscanf(q, "accept:%ld:%ld", &f_accept, &f_accept_errno);
        if ((q = strstr(p, "thread:")))
            sscanf(q, "thread:%ld", &f_thread);
        if ((q = strstr(p, "short:")))
            sscanf(q, "short:%ld", &f_short);
    }
}

static void
add(void *p)
{
    if (p != NULL) {
        S->blocks++;
        S->allocs++;
        S->bytes += malloc_usable_size(p);
    }
}

static void
del(void *p)
{
    if (p != NULL) {
        S->blocks--;
        S->bytes -= malloc_usable_size(p);
    }
}

#ifndef FAULTS_ONLY
void *malloc(size_t n) { void *p = __libc_malloc(n); add(p); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); add(p); return p; }
void free(void *p) { del(p); __libc_free(p); }

void *
realloc(void *o, size_t n)
{
    del(o);
    void *p = __libc_realloc(o, n);
    if (p != NULL)
        add(p);
    else if (o != NULL && n > 0)
        add(o);
    return p;
}
#endif

int
accept(int fd, struct sockaddr *a, socklen_t *l)
{
    static int (*real)(int, struct sockaddr *, socklen_t *);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "accept");
    int rv = real(fd, a, l);
    if (f_accept && rv >= 0 && ++n_accept % f_accept == 0) {
        close(rv);
        S->faults++;
        errno = f_accept_errno;
        return -1;
    }
    return rv;
}

int
pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "pthread_create");
    if (f_thread && ++n_thread % f_thread == 0) {
        S->faults++;
        return EAGAIN;
    }
    S->threads++;
    return real(t, a, f, arg);
}

static int
is_socket(int fd)
{
    struct stat st;
    return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
}

ssize_t
read(int fd, void *b, size_t n)
{
    static ssize_t (*real)(int, void *, size_t);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "read");
    if (f_short && n > 1 && is_socket(fd) && ++n_short % f_short == 0) {
        S->faults++;
        n = 1 + n / 7;
    }
    return real(fd, b, n);
}

ssize_t
write(int fd, const void *b, size_t n)
{
    static ssize_t (*real)(int, const void *, size_t);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "write");
    if (f_short && n > 1 && is_socket(fd) && ++n_short % f_short == 0) {
        S->faults++;
        n = 1 + n / 7;
    }
    return real(fd, b, n);
}

ssize_t
send(int fd, const void *b, size_t n, int flags)
{
    static ssize_t (*real)(int, const void *, size_t, int);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "send");
    if (f_short && n > 1 && ++n_short % f_short == 0) {
        S->faults++;
        n = 1 + n / 7;
    }
    return real(fd, b, n, flags);
}

ssize_t
recv(int fd, void *b, size_t n, int flags)
{
    static ssize_t (*real)(int, void *, size_t, int);
    if (real == NULL)
        real = dlsym(RTLD_NEXT, "recv");
    if (f_short && n > 1 && ++n_short % f_short == 0) {
        S->faults++;
        n = 1 + n / 7;
    }
    return real(fd, b, n, flags);
}
