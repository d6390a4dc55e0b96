// LIBS: common
// Interprets a script of container operations; every argument is hexadecimal
// ("-" is the empty string, "~" is NULL); one line of result per operation.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "common/utils.h"
#include "common/sort.h"
#include "common/utf8.h"

#define N 8
static bc_trie_t *tries[N];
static bc_slist_t *lists[N];
static bc_string_t *strs[N];

static char *arg(size_t *len)
{
    char *t = strtok(NULL, " \n");
    if (t == NULL) {
        fprintf(stderr, "missing argument\n");
        exit(3);
    }
    if (len)
        *len = 0;
    if (0 == strcmp(t, "~"))
        return NULL;
    size_t n = 0 == strcmp(t, "-") ? 0 : strlen(t) / 2;
    // exactly as long as needed: an overread is seen
    char *rv = malloc(n + 1);
    for (size_t i = 0; i < n; i++) {
        unsigned int x;
        sscanf(t + 2 * i, "%2x", &x);
        rv[i] = x;
    }
    rv[n] = 0;
    if (len)
        *len = n;
    return rv;
}

static long num(void)
{
    char *t = strtok(NULL, " \n");
    return t == NULL ? 0 : atol(t);
}

static void put(const char *s, size_t n)
{
    if (s == NULL) {
        printf("~");
        return;
    }
    if (n == 0)
        printf("-");
    for (size_t i = 0; i < n; i++)
        printf("%02x", (unsigned char) s[i]);
}

static void puts_(const char *s)
{
    put(s, s == NULL ? 0 : strlen(s));
}

static void each(const char *key, void *data, void *u)
{
    printf(" ");
    puts_(key);
    printf("=");
    puts_(data);
    (*(int*) u)++;
}

static long comparisons;

// elements are "key:identity"; only the key counts
static int cmp(const void *a, const void *b)
{
    comparisons++;
    long x = strtol(a, NULL, 10), y = strtol(b, NULL, 10);
    return (x > y) - (x < y);
}

int main(void)
{
    char *line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        char *op = strtok(line, " \n");
        if (op == NULL)
            continue;
#define IS(x) (0 == strcmp(op, x))
        if (IS("tnew")) {
            long i = num();
            bc_trie_free(tries[i]);
            tries[i] = bc_trie_new(free);
        }
        else if (IS("tins")) {
            long i = num();
            char *k = arg(NULL), *v = arg(NULL);
            bc_trie_insert(tries[i], k, v);
            free(k);
        }
        else if (IS("tget")) {
            long i = num();
            char *k = arg(NULL);
            puts_(bc_trie_lookup(tries[i], k));
            free(k);
        }
        else if (IS("tsize"))
            printf("%zu", bc_trie_size(tries[num()]));
        else if (IS("teach")) {
            int n = 0;
            bc_trie_foreach(tries[num()], each, &n);
            printf(" %d", n);
        }
        else if (IS("lnew")) {
            long i = num();
            bc_slist_free_full(lists[i], free);
            lists[i] = NULL;
        }
        else if (IS("lapp") || IS("lpre")) {
            long i = num();
            lists[i] = (IS("lapp") ? bc_slist_append : bc_slist_prepend)(lists[i], arg(NULL));
        }
        else if (IS("lcat")) {
            long i = num(), j = num();
            lists[i] = bc_slist_append_list(lists[i], lists[j]);
            lists[j] = NULL;
        }
        else if (IS("lsort")) {
            long i = num();
            comparisons = 0;
            lists[i] = bc_slist_sort(lists[i], cmp);
        }
        else if (IS("llen"))
            printf("%zu", bc_slist_length(lists[num()]));
        else if (IS("ldump"))
            for (bc_slist_t *l = lists[num()]; l != NULL; l = l->next) {
                puts_(l->data);
                printf(" ");
            }
        else if (IS("snew")) {
            long i = num();
            bc_string_free(strs[i], true);
            strs[i] = bc_string_new();
        }
        else if (IS("sapp") || IS("sesc") || IS("sfmt")) {
            long i = num();
            char *a = arg(NULL);
            if (IS("sapp"))
                strs[i] = bc_string_append(strs[i], a);
            else if (IS("sesc"))
                strs[i] = bc_string_append_escaped(strs[i], a);
            else
                strs[i] = bc_string_append_printf(strs[i], "<%s|%d>", a, (int) strlen(a));
            free(a);
        }
        else if (IS("slen")) {
            long i = num();
            size_t n;
            char *a = arg(&n);
            strs[i] = bc_string_append_len(strs[i], a, n);
            free(a);
        }
        else if (IS("schr")) {
            long i = num();
            strs[i] = bc_string_append_c(strs[i], num());
        }
        else if (IS("sdup")) {
            long i = num(), j = num();
            bc_string_t *n = bc_string_dup(strs[i]);
            bc_string_free(strs[j], true);
            strs[j] = n;
        }
        else if (IS("sdump")) {
            bc_string_t *s = strs[num()];
            printf("%zu %d ", s->len, s->str[s->len] == 0 && s->allocated_len > s->len);
            put(s->str, s->len);
        }
        else if (IS("split")) {
            char *a = arg(NULL);
            int c = num();
            char **v = bc_str_split(a, c, num());
            if (v == NULL)
                printf("~");
            else {
                printf("%zu", bc_strv_length(v));
                for (size_t i = 0; v[i]; i++) {
                    printf(" ");
                    puts_(v[i]);
                }
                char sep[2] = {c, 0};
                char *j = bc_strv_join(v, sep);
                printf(" = ");
                puts_(j);
                free(j);
            }
            bc_strv_free(v);
            free(a);
        }
        else if (IS("join")) {
            char *sep = arg(NULL);
            long n = num();
            char **v = malloc((n + 1) * sizeof(char*));
            for (long i = 0; i < n; i++)
                v[i] = arg(NULL);
            v[n] = NULL;
            char *j = bc_strv_join(v, sep);
            puts_(j);
            free(j);
            free(sep);
            bc_strv_free(v);
        }
        else if (IS("replace")) {
            char *a = arg(NULL), *r = arg(NULL);
            char *x = bc_str_replace(a, num(), r);
            puts_(x);
            free(x);
            free(a);
            free(r);
        }
        else if (IS("find")) {
            char *a = arg(NULL);
            char *x = bc_str_find(a, num());
            printf("%ld", x == NULL ? -1L : (long) (x - a));
            free(a);
        }
        else if (IS("strip")) {
            char *a = arg(NULL), *b = bc_strdup(a), *c = bc_strdup(a);
            puts_(bc_str_lstrip(a));
            printf(" ");
            puts_(bc_str_rstrip(b));
            printf(" ");
            puts_(bc_str_strip(c));
            free(a);
            free(b);
            free(c);
        }
        else if (IS("with")) {
            char *a = arg(NULL), *b = arg(NULL);
            printf("%d %d", bc_str_starts_with(a, b), bc_str_ends_with(a, b));
            free(a);
            free(b);
        }
        else if (IS("bool")) {
            char *a = arg(NULL);
            printf("%d", bc_str_to_bool(a));
            free(a);
        }
        else if (IS("quote")) {
            char *a = arg(NULL), *q = bc_shell_quote(a);
            puts_(q);
            free(a);
            free(q);
        }
        else if (IS("ndup")) {
            char *a = arg(NULL), *q = bc_strndup(a, num());
            puts_(q);
            free(a);
            free(q);
        }
        else if (IS("utf8")) {
            size_t n;
            char *a = arg(&n);
            // no terminator: an overread is seen
            uint8_t *b = malloc(n ? n : 1);
            memcpy(b, a, n);
            printf("%d %zu", n == 0 ? 1 : bc_utf8_validate(b, n), n == 0 ? 0 : bc_utf8_skip_bom(b, n));
            free(b);
            free(a);
        }
        else {
            fprintf(stderr, "unknown operation %s\n", op);
            return 3;
        }
        printf("\n");
    }
    for (int i = 0; i < N; i++) {
        bc_trie_free(tries[i]);
        bc_slist_free_full(lists[i], free);
        bc_string_free(strs[i], true);
    }
    free(line);
    return 0;
}
