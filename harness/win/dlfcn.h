/* dlfcn-win32 */
#ifndef VKW_DLFCN_H
#define VKW_DLFCN_H
#define RTLD_LAZY 1
#define RTLD_NOW 2
#define RTLD_GLOBAL 4
#define RTLD_LOCAL 0
#include "windows.h"
#define dlopen vkw_dlopen
#define dlsym vkw_dlsym
#define dlclose vkw_dlclose
#define dlerror vkw_dlerror
typedef struct { const char *dli_fname; void *dli_fbase; const char *dli_sname; void *dli_saddr; } Dl_info;
#define DLADDR_PROTOTYPE
static inline int dladdr(const void *addr, Dl_info *info) { (void)addr; (void)info; return 0; }
#endif
