/* the program of one driver: start snapshot, then one operation per script line */
int main(int argc, char **argv)
{
    static char line[200000];
    char cmd[64], *a;
    int op = 0;
    FILE *in = argc > 1 ? fopen(argv[1], "r") : stdin;
    if (!in) return 90;
    vk_log("O -1 start");
    snap("S");
    vk_fds();
    while (fgets(line, sizeof(line), in)) {
        if (sscanf(line, "%63s", cmd) != 1) continue;
        a = strchr(line, ' ');
        a = a ? a + 1 : line + strlen(line);
        if (vk_fault_now(line)) continue;
        vk_log("O %d %s", op++, cmd);
        if (!strcmp(cmd, "exit")) {
            fclose(in);
            exit(atoi(a));
        }
        int ret = step(cmd, a);
        if (ret < -80) return -ret;
        vk_log("R %d", ret);
        vk_fds();
        snap("S");
    }
    fclose(in);
    vk_log("O %d end", op);
    fin(&op);
    return 0;
}
