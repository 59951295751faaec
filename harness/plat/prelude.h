/* Everything of this system's headers first; then the macros of another platform, as its compiler
 * and C library define them. VKP_<platform> selects. */
#if !defined(_GNU_SOURCE) && !defined(VKP_OTHERCC)
# define _GNU_SOURCE
# define VKP_GNU
#endif
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <locale.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <linux/fs.h>
#ifdef __cplusplus
#include <algorithm>
#include <cinttypes>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#endif
#ifndef VKP_NETBSD
#include <dlfcn.h>
#include <link.h>
#endif
#ifdef VKP_GNU
# undef _GNU_SOURCE
#endif
#ifndef VKP_OTHERCC
# undef __GLIBC__
# undef __GLIBC_MINOR__
# undef __GNU_LIBRARY__
#endif
#if !defined(VKP_OTHERCC) && !defined(VKP_MUSL) && !defined(VKP_ANDROID)
# undef __linux__
# undef __linux
# undef linux
# undef __gnu_linux__
#endif
#if defined(VKP_ANDROID)
# define __ANDROID__ 1
# define __BIONIC__ 1
#elif defined(VKP_FREEBSD)
# define __FreeBSD__ 14
#elif defined(VKP_DRAGONFLY)
# define __DragonFly__ 1
#elif defined(VKP_OPENBSD)
# define __OpenBSD__ 1
#elif defined(VKP_NETBSD)
# define __NetBSD__ 1
#elif defined(VKP_SUN)
# define __sun 1
# define sun 1
#elif defined(VKP_MACOS)
# define __APPLE__ 1
# define __MACH__ 1
#elif defined(VKP_AIX)
# define _AIX 1
# undef RTLD_MEMBER
# define RTLD_MEMBER 0x00040000
#elif defined(VKP_OTHERCC)
# undef __GNUC__
# undef __GNUG__
#endif
