#include "zzrt.h"
#include <stdio.h>
#include <string.h>

unsigned char zzr_pool[8192];
const void *zzr_addr[512];
void (*zzr_dump)(int i, int mutate);
static char line[20000];
static size_t n;

__attribute__((constructor)) static void fill(void)
{
    for (size_t i = 0; i < sizeof(zzr_pool); i++) zzr_pool[i] = (unsigned char)(i % 16 == 15 ? 0 : 'a' + i % 23);
}
void zzr_begin(const char *what, const char *name) { zzr_end(); n = (size_t)sprintf(line, "%s %s", what, name); }
void zzr_i(long long v) { n += (size_t)sprintf(line + n, " %lld", v); }
void zzr_f(long double v) { n += (size_t)sprintf(line + n, " %La", v); }
void zzr_p(const void *p)
{
    if (!p) n += (size_t)sprintf(line + n, " null");
    else if ((const unsigned char *)p >= zzr_pool && (const unsigned char *)p < zzr_pool + sizeof(zzr_pool)) n += (size_t)sprintf(line + n, " @%zd", (const unsigned char *)p - zzr_pool);
    else n += (size_t)sprintf(line + n, " elsewhere");
}
void zzr_end(void)
{
    if (!n) return;
    line[n++] = '\n';
    fwrite(line, 1, n, stdout);
    fflush(stdout);
    n = 0;
}
int zzr_once(int v) { zzr_end(); printf("eval %d\n", v); fflush(stdout); return v; }
