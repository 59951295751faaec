/* everything of the C and C++ libraries first, then the emulated platform */
#include <assert.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <locale.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <wchar.h>
#ifdef __cplusplus
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#endif
#ifndef VKW_SHIM
#undef __GLIBC__
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#define _WIN32 1
#ifdef VKW_MINGW
#define __MINGW32__ 1
#endif
#include "windows.h"
#ifndef __cplusplus
/* allocations of generated code can be made to fail */
#define malloc vkw_malloc
#define calloc vkw_calloc
#else
/* generated C code compiled as C++ allocates with these, too */
static inline void *vkw_m(size_t n) { return vkw_malloc(n); }
#ifdef VKW_CASCXX
#define malloc vkw_malloc
#define calloc vkw_calloc
#endif
#endif
#endif
