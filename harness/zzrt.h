/* Run time of the differential programs: values are written to a trace. */
#ifndef ZZRT_H
#define ZZRT_H
#include <stdarg.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern unsigned char zzr_pool[8192];
extern const void *zzr_addr[];                 /* addresses of the library's symbols, set by the library */
extern void (*zzr_dump)(int i, int mutate);     /* the library prints (and changes) its object i */
void zzr_begin(const char *what, const char *name);
void zzr_i(long long v);
void zzr_f(long double v);
void zzr_p(const void *p);
void zzr_end(void);
int zzr_once(int v);                            /* v; logs that it was evaluated */
#ifdef __cplusplus
}
#endif
#endif
