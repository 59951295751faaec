/* An emulation of the part of the Windows API that generated code uses: same signatures and documented
 * semantics, modules made up by the test script (see winshim.c). */
#ifndef VKW_WINDOWS_H
#define VKW_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t DWORD;
typedef unsigned int UINT;
typedef int BOOL;
typedef struct vkw_mod *HMODULE;
typedef void *HANDLE, *HWND, *HLOCAL;
typedef intptr_t (*FARPROC)(void);
#ifdef UNICODE
typedef wchar_t TCHAR;
#else
typedef char TCHAR;
#endif
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define ERROR_INVALID_HANDLE 6L
#define ERROR_NOT_ENOUGH_MEMORY 8L
#define ERROR_OUTOFMEMORY 14L
#define ERROR_INVALID_PARAMETER 87L
#define ERROR_INSUFFICIENT_BUFFER 122L
#define ERROR_INVALID_NAME 123L
#define ERROR_MOD_NOT_FOUND 126L
#define ERROR_PROC_NOT_FOUND 127L
#define ERROR_NO_UNICODE_TRANSLATION 1113L
#define ERROR_NOT_FOUND 1168L
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xff
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((uint16_t)(s)) << 10) | (uint16_t)(p))
#define MB_OK 0
#define MB_ICONERROR 0x10
#define DONT_RESOLVE_DLL_REFERENCES 0x1
#define LOAD_LIBRARY_AS_DATAFILE 0x2
#define LOAD_WITH_ALTERED_SEARCH_PATH 0x8
#define LOAD_LIBRARY_SEARCH_SYSTEM32 0x800
HMODULE LoadLibraryA(const char *name);
HMODULE LoadLibraryW(const wchar_t *name);
HMODULE LoadLibraryExA(const char *name, HANDLE file, DWORD flags);
HMODULE LoadLibraryExW(const wchar_t *name, HANDLE file, DWORD flags);
BOOL FreeLibrary(HMODULE h);
FARPROC GetProcAddress(HMODULE h, const char *name);
DWORD GetModuleFileNameA(HMODULE h, char *buf, DWORD n);
DWORD GetModuleFileNameW(HMODULE h, wchar_t *buf, DWORD n);
DWORD GetLastError(void);
void SetLastError(DWORD e);
DWORD FormatMessageA(DWORD flags, const void *src, DWORD id, DWORD lang, char *buf, DWORD size, void *args);
DWORD FormatMessageW(DWORD flags, const void *src, DWORD id, DWORD lang, wchar_t *buf, DWORD size, void *args);
HLOCAL LocalFree(HLOCAL p);
int MessageBoxA(HWND w, const char *text, const char *caption, UINT type);
int MessageBoxW(HWND w, const wchar_t *text, const wchar_t *caption, UINT type);
#ifdef UNICODE
#define LoadLibrary LoadLibraryW
#define LoadLibraryEx LoadLibraryExW
#define GetModuleFileName GetModuleFileNameW
#define FormatMessage FormatMessageW
#define MessageBox MessageBoxW
#else
#define LoadLibrary LoadLibraryA
#define LoadLibraryEx LoadLibraryExA
#define GetModuleFileName GetModuleFileNameA
#define FormatMessage FormatMessageA
#define MessageBox MessageBoxA
#endif
/* C runtime */
typedef int errno_t;
#define _TRUNCATE ((size_t)-1)
#ifndef _countof
#define _countof(a) (sizeof(a) / sizeof((a)[0]))
#endif
errno_t mbstowcs_s(size_t *ret, wchar_t *out, size_t size, const char *in, size_t count);
errno_t wcstombs_s(size_t *ret, char *out, size_t size, const wchar_t *in, size_t count);
int _snprintf_s(char *buf, size_t size, size_t count, const char *fmt, ...);
int _snwprintf_s(wchar_t *buf, size_t size, size_t count, const wchar_t *fmt, ...);
int vkw_fprintf(FILE *fp, const char *fmt, ...);
int vkw_fwprintf(FILE *fp, const wchar_t *fmt, ...);
int vkw_fputwc(wchar_t c, FILE *fp);
char *vkw_strdup(const char *s);
wchar_t *vkw_wcsdup(const wchar_t *s);
void *vkw_malloc(size_t n);
void *vkw_calloc(size_t n, size_t m);
/* of the test program */
void vkw_log(const char *fmt, ...);
void vkw_loghex(const char *tag, const char *s);
void vkw_logwhex(const char *tag, const wchar_t *s);
int vkw_cmd(char *line);
char *vkw_unhex(const char *tok);
wchar_t *vkw_wunhex(const char *tok);
void vkw_end(void);
/* dlfcn-win32 */
void *vkw_dlopen(const char *name, int flags);
void *vkw_dlsym(void *h, const char *name);
int vkw_dlclose(void *h);
char *vkw_dlerror(void);
#ifdef __cplusplus
}
#endif
#endif
