/* Executes a script of calls of the generated C interface (see vk/hist.py). The file is text for
 * the default prefix; with another prefix it is renamed the way the tool documents. */
#include "shim.h"
#include VK_HEADER
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* vk_tables.inc: vk_names[], vk_nums[], static uintptr_t vk_ptr(int) */
#include "vk_tables.inc"

static void snap(const char *tag)
{
    char b[4096];
    int n = 0;
    n += sprintf(b + n, "%s %d %d %d %d", tag, gdo_lib_is_loaded(), gdo_all_symbols_loaded(), gdo_no_symbols_loaded(), gdo_any_symbol_loaded());
    for (int i = 0; i < VK_COUNT && n < 4000; i++) n += sprintf(b + n, " %p", (void *)vk_ptr(i));
    vk_log("%s", b);
}

/* one operation; below 0: protocol error */
static int step(const char *cmd, char *a)
{
    int ret = -1;
    if (0) ;
#ifdef GDO_DEFAULT_LIB
    else if (!strcmp(cmd, "load")) ret = gdo_load_lib();
    else if (!strcmp(cmd, "loadsym")) ret = gdo_load_lib_and_symbols();
#endif
    else if (!strcmp(cmd, "name")) { char *s = vk_unhex(a); ret = gdo_load_lib_name(s); free(s); }
    else if (!strcmp(cmd, "namesym")) { char *s = vk_unhex(a); ret = gdo_load_lib_name_and_symbols(s); free(s); }
    else if (!strcmp(cmd, "args")) {
        char *s = vk_unhex(a);
        int fl = 0, ns = 0;
        char *q = strchr(a, ' ');
        if (!q || sscanf(q, " %d %d", &fl, &ns) != 2) return -91;
        ret = gdo_load_lib_args(s, fl, ns != 0);
        free(s);
    }
    else if (!strcmp(cmd, "loaded")) ret = gdo_lib_is_loaded();
    else if (!strcmp(cmd, "free")) ret = gdo_free_lib();
    else if (!strcmp(cmd, "force")) { gdo_force_free_lib(); ret = 2; }
    else if (!strcmp(cmd, "autorel")) ret = gdo_enable_autorelease();
    else if (!strcmp(cmd, "all")) ret = gdo_load_all_symbols();
    else if (!strcmp(cmd, "sym")) {
        int k = atoi(a + 1);
        ret = gdo_load_symbol(*a == '#' ? vk_nums[k] : (int)strtol(a + 1, NULL, 10));
    }
    else if (!strcmp(cmd, "symname")) { char *s = vk_unhex(a); ret = gdo_load_symbol_name(s); free(s); }
    else if (!strcmp(cmd, "err")) {
        const char *e = gdo_last_error();
        vk_logstr("T", e);
#ifndef VK_NO_ERRBUF
        /* the text lives in the handle: terminated within its buffer */
        if (e && (e < gdo_hndl.errbuf || e >= gdo_hndl.errbuf + sizeof(gdo_hndl.errbuf) || !memchr(gdo_hndl.errbuf, 0, sizeof(gdo_hndl.errbuf)))) vk_log("T-outside");
#endif
        ret = 2;
    }
    else if (!strcmp(cmd, "path")) {
        const char *p = gdo_library_path();
        vk_logstr("P", p);
        ret = p != NULL;
    }
    else if (!strcmp(cmd, "chdir")) { char *s = vk_unhex(a); ret = chdir(s) ? 0 : 2; free(s); }
    else return -92;
    return ret;
}

static void fin(int *op) { (void)op; }

#ifndef VK_MULTI
# include "main.inc"
#endif
