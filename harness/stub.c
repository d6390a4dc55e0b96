// Stands in for a program found through PATH: appends its name, working
// directory and arguments to $STUB_LOG and does what $STUB_<NAME> says.
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char buf[1 << 20];
static size_t len;

static void
add(const char *s)
{
    for (; *s && len < sizeof(buf) - 4; s++)
        len += sprintf(buf + len, "%02x", (unsigned char) *s);
    buf[len++] = ' ';
}

static int
mkdirs(const char *p)
{
    char *d = strdup(p);
    for (char *q = d + 1; *q; q++) {
        if (*q == '/') {
            *q = 0;
            if (mkdir(d, 0777) != 0 && errno != EEXIST)
                return 1;
            *q = '/';
        }
    }
    return mkdir(d, 0777) != 0 && errno != EEXIST;
}

int
main(int argc, char **argv)
{
    const char *log = getenv("STUB_LOG");
    char cwd[8192] = "";
    getcwd(cwd, sizeof(cwd));
    const char *name = strrchr(argv[0], '/');
    name = name ? name + 1 : argv[0];
    add(name);
    add(cwd);
    for (int i = 1; i < argc; i++) {
        buf[len++] = 'x';
        add(argv[i]);
    }
    buf[len++] = '\n';
    if (log != NULL) {
        int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd < 0 || write(fd, buf, len) != len)
            return 111;
        close(fd);
    }
    const char *rc = getenv("STUB_RC");
    const char *real = getenv("STUB_REALGIT");
    if (0 == strcmp(name, "git") && real != NULL) {
        const char *push = getenv("STUB_PUSH");
        if (argc > 1 && 0 == strcmp(argv[1], "push") && push != NULL) {
            if (0 == strcmp(push, "signal"))
                kill(getpid(), 9);
            return atoi(push);
        }
        execv(real, argv);
        return 126;
    }
    if (0 == strcmp(name, "git") && argc == 4 && 0 == strcmp(argv[1], "init")) {
        const char *how = getenv("STUB_INIT");
        if (how != NULL && 0 == strcmp(how, "fail"))
            return 128;
        if (mkdirs(argv[3]) != 0)
            return 128;
        if (how == NULL) {
            if (chdir(argv[3]) != 0)
                return 128;
            mkdir("hooks", 0777);
        }
        return 0;
    }
    if (0 == strcmp(name, "git-shell"))
        return rc ? atoi(rc) : 0;
    return 0;
}
