/* Executes a script against the minimal C output. */
#include "shim.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stddef.h>
#include VK_HEADER
#include "vk_tables.inc"

static void snap(const char *tag)
{
    char b[4096];
    int n = sprintf(b, "%s %d 0 0 0", tag, gdo_hndl.handle != NULL);
    for (int i = 0; i < VK_COUNT && n < 4000; i++) n += sprintf(b + n, " %p", (void *)vk_ptr(i));
    vk_log("%s", b);
}

/* one operation; below 0: protocol error */
static int step(const char *cmd, char *a)
{
    int ret = -1;
    if (!strcmp(cmd, "load")) {
        char *s = vk_unhex(a);
        const char *e = gdo_load_library_and_symbols(s);
        vk_logstr("T", e);
        ret = e == NULL;
        free(s);
    }
    else if (!strcmp(cmd, "free")) { gdo_free_library(); ret = 2; }
    else return -92;
    return ret;
}

static void fin(int *op) { (void)op; }

#ifndef VK_MULTI
# include "main.inc"
#endif
