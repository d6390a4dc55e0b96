// LIBS: blogc common
// LINK: -fsanitize=fuzzer
// libFuzzer target for the parsers and the renderer of blogc; FUZZ_MODE selects the part.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "common/utils.h"
#include "common/utf8.h"
#include "common/error.h"
#include "blogc/content-parser.h"
#include "blogc/source-parser.h"
#include "blogc/template-parser.h"
#include "blogc/filelist-parser.h"
#include "blogc/datetime-parser.h"
#include "blogc/renderer.h"
#include "blogc/toctree.h"

static char mode;

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    const char *m = getenv("FUZZ_MODE");
    mode = m == NULL ? 'c' : m[0];
    return 0;
}

// as the programs have it: exactly as long, with an end
static char *dup(const uint8_t *d, size_t n)
{
    char *rv = malloc(n + 1);
    memcpy(rv, d, n);
    rv[n] = 0;
    return rv;
}

static void content(const uint8_t *d, size_t n)
{
    char *s = dup(d, n);
    size_t end = 0;
    char *first = NULL, *desc = NULL, *endl = NULL;
    bc_slist_t *headers = NULL;
    char *r = blogc_content_parse(s, &end, &first, &desc, &endl, &headers);
    if (r != NULL && end > strlen(r)) {
        fprintf(stderr, "the excerpt ends after the content\n");
        abort();
    }
    for (int depth = -1; depth < 4; depth++)
        free(blogc_toctree_render(headers, depth, endl));
    blogc_toctree_free(headers);
    free(first);
    free(desc);
    free(endl);
    free(r);
    free(s);
}

static void source(const uint8_t *d, size_t n)
{
    char *s = dup(d, n);
    bc_error_t *err = NULL;
    bc_trie_t *t = blogc_source_parse(s, n, n % 5 - 1, &err);
    if ((t == NULL) == (err == NULL)) {
        fprintf(stderr, "neither or both of a result and an error\n");
        abort();
    }
    bc_trie_free(t);
    bc_error_free(err);
    free(s);
}

// flags, then pieces separated by the byte 0xff: template, sources
static void render(const uint8_t *d, size_t n)
{
    if (n == 0)
        return;
    int flags = d[0];
    d++;
    n--;
    const uint8_t *e = memchr(d, 0xff, n);
    size_t tn = e == NULL ? n : e - d;
    if (!bc_utf8_validate((uint8_t*) d, tn))
        return;
    char *s = dup(d, tn);
    bc_error_t *err = NULL;
    bc_slist_t *t = blogc_template_parse(s, tn, &err);
    free(s);
    if (err != NULL) {
        if (t != NULL) {
            fprintf(stderr, "both a template and an error\n");
            abort();
        }
        bc_error_free(err);
        return;
    }
    bc_slist_t *sources = NULL, *entries = NULL;
    int k = 0;
    while (e != NULL && k < 5) {
        d = e + 1;
        n -= tn + 1;
        e = memchr(d, 0xff, n);
        tn = e == NULL ? n : e - d;
        if (!bc_utf8_validate((uint8_t*) d, tn))
            break;
        s = dup(d, tn);
        bc_trie_t *x = blogc_source_parse(s, tn, -1, &err);
        free(s);
        if (err != NULL) {
            bc_error_free(err);
            err = NULL;
            continue;
        }
        bc_trie_insert(x, "FILENAME", bc_strdup("file"));
        if (k == 2 && (flags & 4))
            entries = bc_slist_append(entries, x);
        else if (sources == NULL || (flags & 1))
            sources = bc_slist_append(sources, x);
        else
            bc_trie_free(x);
        k++;
    }
    if (flags & 8)
        entries = bc_slist_prepend(entries, NULL);
    bc_trie_t *conf = bc_trie_new(free);
    bc_trie_insert(conf, "A", bc_strdup("a b c"));
    bc_trie_insert(conf, "EMPTY", bc_strdup(""));
    bc_trie_insert(conf, "DATE_FORMAT", bc_strdup(flags & 16 ? "%Y é %H" : "%"));
    if ((flags & 1) || sources != NULL || (flags & 32)) {
        char *r = blogc_render(t, sources, entries, conf, flags & 1);
        free(r);
    }
    bc_trie_free(conf);
    bc_slist_free_full(sources, (bc_free_func_t) bc_trie_free);
    bc_slist_free_full(entries, (bc_free_func_t) bc_trie_free);
    blogc_template_free_ast(t);
}

static void other(const uint8_t *d, size_t n)
{
    char *s = dup(d, n);
    bc_slist_t *l = blogc_filelist_parse(s, n);
    bc_slist_free_full(l, free);
    free(blogc_slugify(s));
    free(blogc_htmlentities(s));
    free(blogc_fix_description(s));
    char *c = strchr(s, '|');
    bc_error_t *err = NULL;
    if (c != NULL) {
        *c++ = 0;
        free(blogc_convert_datetime(s, c, &err));
        bc_error_free(err);
    }
    bc_trie_t *conf = bc_trie_new(free);
    bc_trie_insert(conf, "A", bc_strdup("é☃😀"));
    bc_trie_insert(conf, "DATE", bc_strdup("2010-01-01"));
    bc_trie_insert(conf, "DATE_FORMAT", bc_strdup("%Y"));
    bc_slist_t item = {NULL, "item é"};
    free(blogc_format_variable(s, conf, NULL, n % 2 ? "A" : NULL, n % 3 ? &item : NULL));
    bc_trie_free(conf);
    free(s);
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (mode != 'r' && !bc_utf8_validate((uint8_t*) data, size))
        return 0;
    switch (mode) {
        case 'c': content(data, size); break;
        case 's': source(data, size); break;
        case 'r': render(data, size); break;
        default: other(data, size);
    }
    return 0;
}
