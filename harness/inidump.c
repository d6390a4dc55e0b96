// LIBS: common
// inidump FILE LISTSECTION...: parses FILE as the programs do and prints what is in it, in hexadecimal.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/config-parser.h"
#include "common/file.h"
#include "common/error.h"
#include "common/utils.h"

static void put(const char *s)
{
    if (s == NULL)
        printf("~");
    else if (*s == 0)
        printf("-");
    else
        for (; *s; s++)
            printf("%02x", (unsigned char) *s);
}

int main(int argc, char **argv)
{
    bc_error_t *err = NULL;
    size_t len;
    char *s = bc_file_get_contents(argv[1], true, &len, &err);
    bc_config_t *c = NULL;
    if (s != NULL) {
        // exactly as long as needed: an overread is seen
        char *t = malloc(len ? len : 1);
        memcpy(t, s, len);
        free(s);
        c = bc_config_parse(t, len, argc > 2 ? (const char**) argv + 2 : NULL, &err);
        free(t);
    }
    if (err != NULL) {
        bc_error_print(err, "inidump");
        bc_error_free(err);
        if (c != NULL) {
            fprintf(stderr, "both a result and an error\n");
            return 7;
        }
        return 1;
    }
    if (c == NULL) {
        fprintf(stderr, "neither a result nor an error\n");
        return 7;
    }
    char **sec = bc_config_list_sections(c);
    for (size_t i = 0; sec[i]; i++) {
        char **keys = bc_config_list_keys(c, sec[i]);
        char **list = bc_config_get_list(c, sec[i]);
        printf("section ");
        put(sec[i]);
        printf(" %s\n", keys != NULL && list == NULL ? "map" : keys == NULL && list != NULL ? "list" : "neither");
        for (size_t j = 0; keys && keys[j]; j++) {
            printf("key ");
            put(keys[j]);
            printf(" ");
            put(bc_config_get(c, sec[i], keys[j]));
            printf("\n");
            if (bc_config_get_with_default(c, sec[i], keys[j], "default") != bc_config_get(c, sec[i], keys[j]))
                printf("default\n");
        }
        for (size_t j = 0; list && list[j]; j++) {
            printf("item ");
            put(list[j]);
            printf("\n");
        }
        if (bc_config_get(c, sec[i], "no such key \x01") != NULL || 0 != strcmp(bc_config_get_with_default(c, sec[i], "no such key \x01", "d"), "d"))
            printf("found a key that is not there\n");
        bc_strv_free(keys);
        bc_strv_free(list);
    }
    if (bc_config_list_keys(c, "no such section \x01") != NULL || bc_config_get_list(c, "no such section \x01") != NULL)
        printf("found a section that is not there\n");
    bc_strv_free(sec);
    bc_config_free(c);
    return 0;
}
