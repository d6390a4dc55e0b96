// LIBS: blogc-make blogc-runserver blogc-git-receiver common
// LINK: -fsanitize=fuzzer
// libFuzzer target for the parsers of blogc-make, blogc-runserver and blogc-git-receiver; FUZZ_MODE selects one.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/socket.h>
#include "common/utils.h"
#include "common/utf8.h"
#include "common/error.h"
#include "common/config-parser.h"
#include "blogc-make/settings.h"
#include "blogc-make/atom.h"
#include "blogc-make/ctx.h"
#include "blogc-make/rules.h"
#include "blogc-make/utils.h"
#include "blogc-runserver/httpd-utils.h"
#include "blogc-git-receiver/shell-command-parser.h"
#include "blogc-git-receiver/pre-receive-parser.h"

static char mode;

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    const char *m = getenv("FUZZ_MODE");
    mode = m == NULL ? 'i' : m[0];
    return 0;
}

static char *copy(const uint8_t *d, size_t n)
{
    char *rv = malloc(n + 1);
    memcpy(rv, d, n);
    rv[n] = 0;
    return rv;
}

// of a string that is there the length can be asked for
static size_t total;

static void touch(const char *s)
{
    if (s != NULL)
        total += strlen(s);
}

static void ini(char *s, size_t n)
{
    const char *lists[] = {"posts", "pages", "a", NULL};
    bc_error_t *err = NULL;
    bc_config_t *c = bc_config_parse(s, n, n % 3 ? lists : NULL, &err);
    if (err != NULL) {
        if (c != NULL) {
            fprintf(stderr, "both a result and an error\n");
            abort();
        }
        bc_error_free(err);
        return;
    }
    char **secs = bc_config_list_sections(c);
    for (size_t i = 0; secs != NULL && secs[i] != NULL; i++) {
        touch(secs[i]);
        char **keys = bc_config_list_keys(c, secs[i]);
        for (size_t j = 0; keys != NULL && keys[j] != NULL; j++) {
            touch(bc_config_get(c, secs[i], keys[j]));
            touch(bc_config_get_with_default(c, secs[i], keys[j], "x"));
        }
        bc_strv_free(keys);
        char **l = bc_config_get_list(c, secs[i]);
        for (size_t j = 0; l != NULL && l[j] != NULL; j++)
            touch(l[j]);
        bc_strv_free(l);
    }
    bc_strv_free(secs);
    touch(bc_config_get(c, "no such section", "a"));
    bc_config_free(c);
}

static void settings(char *s, size_t n)
{
    bc_error_t *err = NULL;
    bm_settings_t *t = bm_settings_parse(s, n, &err);
    if ((t == NULL) != (err != NULL)) {
        fprintf(stderr, "neither or both of a result and an error\n");
        abort();
    }
    bc_error_free(err);
    if (t == NULL)
        return;
    char **lists[] = {t->posts, t->pages, t->copy, t->tags};
    for (int k = 0; k < 4; k++)
        for (size_t j = 0; lists[k] != NULL && lists[k][j] != NULL; j++)
            touch(lists[k][j]);
    char *a = bm_atom_generate(t);
    touch(a);
    free(a);
    bm_settings_free(t);
}

static void server(const uint8_t *d, size_t n)
{
    int fd[2];
    if (n < 30000 && socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0) {
        if (write(fd[1], d, n) == n) {
            close(fd[1]);
            char *l = br_readline(fd[0]);
            touch(l);
            if (l != NULL) {
                char *u = br_urldecode(l);
                if (u != NULL) {
                    touch(u);
                    if (strlen(u) > strlen(l)) {
                        fprintf(stderr, "decoding made it longer\n");
                        abort();
                    }
                    touch(br_get_extension(u));
                }
                free(u);
            }
            free(l);
        }
        else {
            close(fd[1]);
        }
        close(fd[0]);
    }
    for (size_t i = 0; i < n && i < 50; i++)
        total += br_hextoi(d[i]);
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if ((mode == 'i' || mode == 'm') && !bc_utf8_validate((uint8_t*) data, size))
        return 0;
    char *s = copy(data, size);
    char *r = NULL;
    bc_trie_t *t = NULL;
    switch (mode) {
        case 'i': ini(s, size); break;
        case 'm': settings(s, size); break;
        case 's':
            r = bgr_shell_command_parse(s);
            touch(r);
            free(r);
            break;
        case 'p':
            t = bgr_pre_receive_parse((const char*) s, size);
            if (t != NULL) {
                touch(bc_trie_lookup(t, "master"));
                touch(bc_trie_lookup(t, "main"));
                bc_trie_free(t);
            }
            break;
        case 'h': server(data, size); break;
        default:
            t = bm_rule_parse_args(s);
            if (t != NULL) {
                touch(bc_trie_lookup(t, "host"));
                touch(bc_trie_lookup(t, ""));
                bc_trie_free(t);
            }
            for (int k = 0; k < 16; k++) {
                char *p[4];
                for (int j = 0; j < 4; j++)
                    p[j] = k & (1 << j) ? s + (size ? (j * 7) % size : 0) : NULL;
                r = bm_generate_filename("dir", p[0], p[1], p[2], p[3]);
                touch(r);
                free(r);
            }
    }
    free(s);
    return 0;
}
