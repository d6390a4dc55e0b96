// Stands in for blogc and blogc-runserver: appends one record to $REC_LOG with
// the name and the file it was run as, its working directory, arguments, input,
// a few environment variables and a generated template, and then becomes the
// real program ($REC_REAL) with the same input, or exits with $REC_RC.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static char *buf;
static size_t len, cap;

static void
raw(const char *s, size_t n)
{
    if (len + n + 1 > cap) {
        cap = (len + n + 1) * 2;
        buf = realloc(buf, cap);
    }
    memcpy(buf + len, s, n);
    len += n;
}

static void
field(char type, const char *s, size_t n)
{
    raw(&type, 1);
    for (size_t i = 0; i < n; i++) {
        char h[3];
        sprintf(h, "%02x", (unsigned char) s[i]);
        raw(h, 2);
    }
    raw(" ", 1);
}

static char*
slurp(int fd, size_t *n)
{
    char *rv = malloc(1 << 16);
    size_t c = 1 << 16;
    ssize_t r;
    *n = 0;
    while ((r = read(fd, rv + *n, c - *n)) > 0) {
        *n += r;
        if (*n == c)
            rv = realloc(rv, c *= 2);
    }
    return rv;
}

int
main(int argc, char **argv)
{
    const char *log = getenv("REC_LOG");
    char cwd[8192] = "", exe[8192] = "";
    const char *env[] = {"LC_ALL", "REC_PLAIN", "REC_ODD", "HOME", NULL};
    const char *name = strrchr(argv[0], '/');
    name = name ? name + 1 : argv[0];
    getcwd(cwd, sizeof(cwd));
    if (readlink("/proc/self/exe", exe, sizeof(exe) - 1) < 0)
        return 110;
    field('n', name, strlen(name));
    field('x', exe, strlen(exe));
    field('c', cwd, strlen(cwd));
    int with_input = 0;
    for (int i = 1; i < argc; i++) {
        field('a', argv[i], strlen(argv[i]));
        if (0 == strcmp(argv[i], "-i"))
            with_input = 1;
        if (0 == strcmp(argv[i], "-t") && i + 1 < argc && 0 == strncmp(argv[i + 1], "/tmp/", 5)) {
            int fd = open(argv[i + 1], O_RDONLY);
            if (fd >= 0) {
                size_t n;
                char *s = slurp(fd, &n);
                field('t', s, n);
                close(fd);
            }
        }
    }
    if (with_input) {
        size_t n;
        char *s = slurp(0, &n);
        field('i', s, n);
        int fd = memfd_create("input", 0);
        if (fd < 0 || write(fd, s, n) != n || lseek(fd, 0, SEEK_SET) != 0 || dup2(fd, 0) < 0)
            return 112;
    }
    for (int i = 0; env[i] != NULL; i++) {
        const char *v = getenv(env[i]);
        if (v != NULL) {
            char e[9000];
            field('e', e, snprintf(e, sizeof(e), "%s=%s", env[i], v));
        }
    }
    raw("\n", 1);
    if (log != NULL) {
        int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd < 0 || write(fd, buf, len) != len)
            return 111;
        close(fd);
    }
    const char *rc = getenv("REC_RC");
    if (rc != NULL && 0 != strcmp(name, "blogc")) {
        sleep(2);  // a web server that is gone before it is noticed is another matter
        return atoi(rc);
    }
    const char *real = getenv("REC_REAL");
    if (real == NULL)
        return 0;
    execv(real, argv);
    return 126;
}
