/* without _NETBSD_SOURCE the system's header declares only these */
#ifndef VKP_DLFCN_H
#define VKP_DLFCN_H
#define RTLD_LAZY  1
#define RTLD_NOW   2
#define RTLD_GLOBAL 0x100
#define RTLD_LOCAL 0
#ifdef __cplusplus
extern "C" {
#endif
void *dlopen(const char *, int);
void *dlsym(void *, const char *);
int dlclose(void *);
char *dlerror(void);
#ifdef _NETBSD_SOURCE
#define DLADDR_PROTOTYPE
#define DLINFO_PROTOTYPE
#define RTLD_DI_LINKMAP 3
typedef struct { const char *dli_fname; void *dli_fbase; const char *dli_sname; void *dli_saddr; } Dl_info;
int dladdr(const void *, Dl_info *);
int dlinfo(void *, int, void *);
#endif
#ifdef __cplusplus
}
#endif
#endif
