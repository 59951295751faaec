#ifndef VKW_TCHAR_H
#define VKW_TCHAR_H
#ifdef _UNICODE
#define __T(x) L##x
#define _tcschr wcschr
#define _tcsstr wcsstr
#define _tcsdup vkw_wcsdup
#define _sntprintf_s _snwprintf_s
#define _ftprintf_s vkw_fwprintf
#define _fputtc vkw_fputwc
#else
#define __T(x) x
#define _tcschr strchr
#define _tcsstr strstr
#define _tcsdup vkw_strdup
#define _sntprintf_s _snprintf_s
#define _ftprintf_s vkw_fprintf
#define _fputtc fputc
#endif
#define _T(x) __T(x)
#endif
