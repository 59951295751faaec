/* Executes a script against the plugin loader output. */
#include "shim.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stddef.h>
#include VK_HEADER

/* vk_names[], vk_ptr(struct _gdo_ptr *, int) */
#include "vk_tables.inc"

static gdo_plugin_t *slot[32];

static void show(gdo_plugin_t *p)
{
    if (!p) {
        vk_log("G null");
        return;
    }
    vk_log("G num %zu", p->num);
    for (size_t i = 0; i < p->num; i++) {
        char b[4096];
        int n = sprintf(b, "G rec %zu %p", i, (void *)p->list[i].handle);
        for (int k = 0; vk_names[k] && n < 4000; k++) n += sprintf(b + n, " %p", (void *)vk_ptr(&p->list[i], k));
        vk_log("%s", b);
        vk_logstr("N", p->list[i].filename);
    }
}

int main(int argc, char **argv)
{
    static char line[400000];
    char cmd[64], *a;
    int op = 0, k;
    FILE *in = argc > 1 ? fopen(argv[1], "r") : stdin;
    if (!in) return 90;
    vk_fds();
    while (fgets(line, sizeof(line), in)) {
        k = 0;
        if (sscanf(line, "%63s %d", cmd, &k) < 1) continue;
        if (vk_fault_now(line)) continue;
        vk_log("O %d %s", op++, cmd);
        if (!strcmp(cmd, "plug")) {
            char *names[500], *t;
            size_t n = 0;
            strtok(line, " \n");
            strtok(NULL, " \n");
            while (n < 500 && (t = strtok(NULL, " \n"))) names[n++] = vk_unhex(t);
            const char **arr = (const char **)vk_malloc((n + 1) * sizeof(char *));
            for (size_t i = 0; i < n; i++) arr[i] = names[i];
            slot[k] = gdo_load_plugins(arr, n);
            /* the caller's strings and array are not needed any more */
            for (size_t i = 0; i < n; i++) {
                if (names[i]) memset(names[i], '#', strlen(names[i]));
                free(names[i]);
            }
            free(arr);
            show(slot[k]);
        }
        else if (!strcmp(cmd, "plugnull")) {
            gdo_plugin_t *p = gdo_load_plugins(NULL, (size_t)k);
            show(p);
            gdo_release_plugins(p);
        }
        else if (!strcmp(cmd, "show")) show(slot[k]);
        else if (!strcmp(cmd, "rel")) {
            gdo_release_plugins(slot[k]);
            slot[k] = NULL;
        }
        else if (!strcmp(cmd, "relnull")) gdo_release_plugins(NULL);
        else return 92;
        vk_log("R 0");
        vk_fds();
    }
    fclose(in);
    vk_log("O %d end", op);
    return 0;
}
