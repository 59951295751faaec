/* Program of several parts (source files and/or interfaces): each script line names the part that
 * executes it; after every operation all parts report the state they see. */
#include "shim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vk_multi.inc"      /* vk_names[], the parts, VK_PARTS */

int main(int argc, char **argv)
{
    static char line[200000];
    char cmd[64], tag[20], *a;
    int op = 0, k = 0;
    FILE *in = argc > 1 ? fopen(argv[1], "r") : stdin;
    if (!in) return 90;
    vk_log("O -1 start");
    for (k = 0; k < VK_PARTS; k++) {
        sprintf(tag, "V %d", k);
        parts[k]->snap(tag);
    }
    while (fgets(line, sizeof(line), in)) {
        if (vk_fault_now(line)) continue;
        if (sscanf(line, "@%d %63s", &k, cmd) != 2 || k < 0 || k >= VK_PARTS) return 93;
        a = strchr(line, ' ') + 1;
        a = strchr(a, ' ');
        a = a ? a + 1 : line + strlen(line);
        vk_log("O %d %s %d", op++, cmd, k);
        if (!strcmp(cmd, "exit")) {
            fclose(in);
            exit(atoi(a));
        }
        int ret = parts[k]->step(cmd, a);
        if (ret < -80) return -ret;
        vk_log("R %d", ret);
        for (int i = 0; i < VK_PARTS; i++) {
            sprintf(tag, "V %d", i);
            parts[i]->snap(tag);
        }
    }
    fclose(in);
    vk_log("O %d end", op);
    for (k = 0; k < VK_PARTS; k++) parts[k]->fin(&op);
    return 0;
}
