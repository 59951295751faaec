/* Modules of the emulated Windows API are made up by the script:
 *   mod <name> <path> <sym,sym,...>    a file that can be loaded (name, full path in hex)
 *   bad <name> <code>                  a file that fails to load with this code
 *   fault sym <name> <code> | open <code> | close <code> | modname <code> | alloc <n> | clear
 *   fmt ok | fail | long <n>           what FormatMessage() does
 * Every successful call leaves a junk value in the thread's last error, as calls may. */
#define VKW_SHIM
#include "prelude.h"
#include "windows.h"
#include <errno.h>

struct vkw_mod { char *name, *path; char **syms; int nsyms; int refs; unsigned bad; struct vkw_mod *next; };
static struct vkw_mod *mods;
static DWORD last_error, junk = 50000;
static char *f_sym;
static unsigned f_symcode, f_open, f_close, f_modname;
static long f_alloc;
static int fmt_mode;
static size_t fmt_len;
static long live_bufs;
static const char *dl_err;
static char dl_buf[200];

void vkw_log(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
    fputc('\n', stdout);
    fflush(stdout);
}
static void hex(const char *tag, const char *s)
{
    fputs(tag, stdout);
    if (!s) fputs(" ~\n", stdout);
    else {
        fputs(" x", stdout);
        for (; *s; s++) fprintf(stdout, "%02x", (unsigned char)*s);
        fputc('\n', stdout);
    }
    fflush(stdout);
}
void vkw_loghex(const char *tag, const char *s) { hex(tag, s); }

static size_t put_utf8(char *out, uint32_t c)
{
    if (c < 0x80) { out[0] = (char)c; return 1; }
    if (c < 0x800) { out[0] = (char)(0xc0 | c >> 6); out[1] = (char)(0x80 | (c & 63)); return 2; }
    if (c < 0x10000) { out[0] = (char)(0xe0 | c >> 12); out[1] = (char)(0x80 | (c >> 6 & 63)); out[2] = (char)(0x80 | (c & 63)); return 3; }
    out[0] = (char)(0xf0 | c >> 18); out[1] = (char)(0x80 | (c >> 12 & 63)); out[2] = (char)(0x80 | (c >> 6 & 63)); out[3] = (char)(0x80 | (c & 63));
    return 4;
}
static int get_utf8(const char **p, uint32_t *c)
{
    const unsigned char *s = (const unsigned char *)*p;
    int n = s[0] < 0x80 ? 1 : s[0] >= 0xc2 && s[0] < 0xe0 ? 2 : s[0] >= 0xe0 && s[0] < 0xf0 ? 3 : s[0] >= 0xf0 && s[0] < 0xf5 ? 4 : 0, i;
    if (!n) return 0;
    *c = n == 1 ? s[0] : s[0] & (0xff >> (n + 1));
    for (i = 1; i < n; i++) {
        if ((s[i] & 0xc0) != 0x80) return 0;
        *c = *c << 6 | (s[i] & 63);
    }
    *p += n;
    return 1;
}
static char *narrow(const wchar_t *s)
{
    char *r, *q;
    if (!s) return NULL;
    r = q = (char *)malloc(wcslen(s) * 4 + 1);
    for (; *s; s++) q += put_utf8(q, (uint32_t)*s);
    *q = 0;
    return r;
}
static wchar_t *widen(const char *s)
{
    wchar_t *r, *q;
    uint32_t c;
    if (!s) return NULL;
    r = q = (wchar_t *)malloc((strlen(s) + 1) * sizeof(wchar_t));
    while (*s) {
        if (!get_utf8(&s, &c)) { free(r); return NULL; }
        *q++ = (wchar_t)c;
    }
    *q = 0;
    return r;
}
void vkw_logwhex(const char *tag, const wchar_t *s) { char *n = narrow(s); hex(tag, n); free(n); }
char *vkw_unhex(const char *t)
{
    size_t n, i;
    char *r;
    if (*t != 'x') return NULL;
    t++;
    for (n = 0; (t[n] >= '0' && t[n] <= '9') || (t[n] >= 'a' && t[n] <= 'f'); n++);
    r = (char *)malloc(n / 2 + 1);
    for (i = 0; i < n / 2; i++) { unsigned v; sscanf(t + 2 * i, "%2x", &v); r[i] = (char)v; }
    r[n / 2] = 0;
    return r;
}
wchar_t *vkw_wunhex(const char *t) { char *n = vkw_unhex(t); wchar_t *w = widen(n); free(n); return w; }

/* ---------------------------------------------------------------- errors */
DWORD GetLastError(void) { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
static void ok(void) { last_error = ++junk; }

/* ---------------------------------------------------------------- modules */
static HMODULE load(const char *name, DWORD flags, const char *api)
{
    struct vkw_mod *m;
    hex("E load", name);
    vkw_log("E how %s %u", api, (unsigned)flags);
    for (m = mods; m && strcmp(m->name, name); m = m->next);
    if (f_open) { last_error = f_open; f_open = 0; }
    else if (!m) last_error = ERROR_MOD_NOT_FOUND;
    else if (m->bad) last_error = m->bad;
    else {
        m->refs++;
        vkw_log("E loaded %d", m->refs);
        ok();
        return m;
    }
    vkw_log("E loadfail %u", (unsigned)last_error);
    return NULL;
}
HMODULE LoadLibraryA(const char *n) { return load(n, 0, "A"); }
HMODULE LoadLibraryW(const wchar_t *n) { char *s = narrow(n); HMODULE h = load(s, 0, "W"); free(s); return h; }
HMODULE LoadLibraryExA(const char *n, HANDLE f, DWORD fl) { if (f) vkw_log("E bad file handle"); return load(n, fl, "ExA"); }
HMODULE LoadLibraryExW(const wchar_t *n, HANDLE f, DWORD fl) { char *s; HMODULE h; if (f) vkw_log("E bad file handle"); s = narrow(n); h = load(s, fl, "ExW"); free(s); return h; }

static int live(HMODULE h, const char *what)
{
    struct vkw_mod *m;
    for (m = mods; m && m != h; m = m->next);
    if (m && m->refs > 0) return 1;
    vkw_log("E bad %s of a module that is not loaded", what);
    last_error = ERROR_INVALID_HANDLE;
    return 0;
}
BOOL FreeLibrary(HMODULE h)
{
    if (!live(h, "free")) return FALSE;
    if (f_close) {
        last_error = f_close; f_close = 0;
        vkw_log("E freefail %u", (unsigned)last_error);
        return FALSE;
    }
    h->refs--;
    hex("E free", h->name);
    ok();
    return 3; /* any value but 0 */
}
FARPROC GetProcAddress(HMODULE h, const char *name)
{
    int i;
    if (!live(h, "lookup")) return NULL;
    if (f_sym && !strcmp(f_sym, name)) { last_error = f_symcode; vkw_log("E symfail %s %u", name, f_symcode); return NULL; }
    for (i = 0; i < h->nsyms; i++)
        if (!strcmp(h->syms[i], name)) {
            extern void *vkw_address(const char *name);
            ok();
            return (FARPROC)vkw_address(name);
        }
    last_error = ERROR_PROC_NOT_FOUND;
    vkw_log("E symfail %s %u", name, (unsigned)last_error);
    return NULL;
}
static int mfn(HMODULE h)
{
    if (!h) { vkw_log("E bad path of no module"); return 0; }
    if (!live(h, "path")) return 0;
    if (f_modname) { last_error = f_modname; f_modname = 0; vkw_log("E pathfail %u", (unsigned)last_error); return 0; }
    return 1;
}
DWORD GetModuleFileNameA(HMODULE h, char *buf, DWORD n)
{
    size_t l;
    if (!mfn(h)) return 0;
    l = strlen(h->path);
    if (l < n) { memcpy(buf, h->path, l + 1); ok(); return (DWORD)l; }
    if (n) { memcpy(buf, h->path, n - 1); buf[n - 1] = 0; }
    last_error = ERROR_INSUFFICIENT_BUFFER;
    vkw_log("E pathfail %u", (unsigned)last_error);
    return n;
}
DWORD GetModuleFileNameW(HMODULE h, wchar_t *buf, DWORD n)
{
    size_t l;
    wchar_t *w;
    if (!mfn(h)) return 0;
    w = widen(h->path);
    l = wcslen(w);
    if (l < n) { memcpy(buf, w, (l + 1) * sizeof(wchar_t)); ok(); free(w); return (DWORD)l; }
    if (n) { memcpy(buf, w, (n - 1) * sizeof(wchar_t)); buf[n - 1] = 0; }
    free(w);
    last_error = ERROR_INSUFFICIENT_BUFFER;
    vkw_log("E pathfail %u", (unsigned)last_error);
    return n;
}

/* ---------------------------------------------------------------- messages */
/* the text of a message has inserts and ends in a line break unless the flags say otherwise */
static char *message(DWORD id, DWORD flags, const void *src)
{
    char *s;
    if (fmt_mode == 1 || src || (flags & 0x1300) != 0x1300 || (flags & ~0x13ffu)) return NULL;
    s = (char *)malloc(100 + fmt_len);
    if (id) sprintf(s, "sys message %u %%s. ", (unsigned)id);
    else strcpy(s, "The operation completed successfully. ");
    if (fmt_mode == 2) {
        size_t l = strlen(s);
        memset(s + l, 'm', fmt_len);
        s[l + fmt_len] = 0;
    }
    if ((flags & 0xff) != 0xff) strcat(s, "\r\n");
    return s;
}
DWORD FormatMessageA(DWORD flags, const void *src, DWORD id, DWORD lang, char *buf, DWORD size, void *args)
{
    char *m = message(id, flags, src);
    if (!m) { last_error = 317; return 0; }
    *(char **)buf = m;
    live_bufs++;
    return (DWORD)strlen(m);
}
DWORD FormatMessageW(DWORD flags, const void *src, DWORD id, DWORD lang, wchar_t *buf, DWORD size, void *args)
{
    char *m = message(id, flags, src);
    wchar_t *w;
    if (!m) { last_error = 317; return 0; }
    w = widen(m);
    free(m);
    *(wchar_t **)buf = w;
    live_bufs++;
    return (DWORD)wcslen(w);
}
HLOCAL LocalFree(HLOCAL p)
{
    if (p) live_bufs--;
    free(p);
    return NULL;
}
int MessageBoxA(HWND w, const char *t, const char *c, UINT type) { hex("E box", t); return 1; }
int MessageBoxW(HWND w, const wchar_t *t, const wchar_t *c, UINT type) { vkw_logwhex("E box", t); return 1; }

/* ---------------------------------------------------------------- C runtime */
static int alloc_fails(void)
{
    if (f_alloc > 0 && --f_alloc == 0) { vkw_log("E allocfail"); return 1; }
    return 0;
}
void *vkw_malloc(size_t n) { return alloc_fails() ? NULL : malloc(n); }
void *vkw_calloc(size_t n, size_t m) { return alloc_fails() ? NULL : calloc(n, m); }
char *vkw_strdup(const char *s) { return alloc_fails() ? NULL : strdup(s); }
wchar_t *vkw_wcsdup(const wchar_t *s) { return alloc_fails() ? NULL : wcsdup(s); }

errno_t mbstowcs_s(size_t *ret, wchar_t *out, size_t size, const char *in, size_t count)
{
    wchar_t *w;
    size_t n;
    if (!in || (!out && size)) { vkw_log("E bad mbstowcs_s arguments"); return EINVAL; }
    w = widen(in);
    if (ret) *ret = 0;
    if (!w) { if (out) out[0] = 0; return EILSEQ; }
    n = wcslen(w) + 1;
    if (!out) { *ret = n; free(w); return 0; }
    if (n > size) {
        /* _TRUNCATE */
        memcpy(out, w, (size - 1) * sizeof(wchar_t));
        out[size - 1] = 0;
        *ret = size;
        free(w);
        return 80;
    }
    memcpy(out, w, n * sizeof(wchar_t));
    *ret = n;
    free(w);
    return 0;
}
errno_t wcstombs_s(size_t *ret, char *out, size_t size, const wchar_t *in, size_t count)
{
    char *s;
    size_t n;
    const wchar_t *p;
    if (!in || (!out && size)) { vkw_log("E bad wcstombs_s arguments"); return EINVAL; }
    if (ret) *ret = 0;
    /* this code page does not know everything */
    for (p = in; *p; p++) if ((uint32_t)*p >= 0x10000) { if (out) out[0] = 0; return EILSEQ; }
    s = narrow(in);
    n = strlen(s) + 1;
    if (!out) { *ret = n; free(s); return 0; }
    if (n > size) {
        memcpy(out, s, size - 1);
        out[size - 1] = 0;
        *ret = size;
        free(s);
        return 80;
    }
    memcpy(out, s, n);
    *ret = n;
    free(s);
    return 0;
}
/* the wide functions of this C runtime: %s is a wide string, %hs a narrow one */
static wchar_t *wfmt(const wchar_t *fmt)
{
    wchar_t *r = (wchar_t *)malloc((wcslen(fmt) * 2 + 1) * sizeof(wchar_t)), *q = r;
    for (; *fmt; fmt++) {
        if (fmt[0] == '%' && fmt[1] == 's') { *q++ = '%'; *q++ = 'l'; *q++ = 's'; fmt++; }
        else if (fmt[0] == '%' && fmt[1] == 'h' && fmt[2] == 's') { *q++ = '%'; *q++ = 's'; fmt += 2; }
        else if (fmt[0] == '%' && fmt[1] == '%') { *q++ = '%'; *q++ = '%'; fmt++; }
        else *q++ = *fmt;
    }
    *q = 0;
    return r;
}
static wchar_t *vaw(const wchar_t *fmt, va_list ap)
{
    size_t n = 1 << 19;
    wchar_t *b = (wchar_t *)malloc(n * sizeof(wchar_t)), *f = wfmt(fmt);
    if (vswprintf(b, n, f, ap) < 0) { vkw_log("E bad wide format"); b[0] = 0; }
    free(f);
    return b;
}
int _snwprintf_s(wchar_t *buf, size_t size, size_t count, const wchar_t *fmt, ...)
{
    va_list ap;
    wchar_t *w;
    size_t n;
    int rv;
    va_start(ap, fmt);
    w = vaw(fmt, ap);
    va_end(ap);
    n = wcslen(w);
    rv = n < size ? (int)n : -1;
    if (n >= size) n = size - 1;
    memcpy(buf, w, n * sizeof(wchar_t));
    buf[n] = 0;
    free(w);
    return rv;
}
int _snprintf_s(char *buf, size_t size, size_t count, const char *fmt, ...)
{
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vsnprintf(buf, size, fmt, ap);
    va_end(ap);
    return n >= 0 && (size_t)n < size ? n : -1;
}
int vkw_fprintf(FILE *fp, const char *fmt, ...)
{
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vfprintf(fp, fmt, ap);
    va_end(ap);
    return n;
}
int vkw_fwprintf(FILE *fp, const wchar_t *fmt, ...)
{
    va_list ap;
    wchar_t *w;
    char *s;
    va_start(ap, fmt);
    w = vaw(fmt, ap);
    va_end(ap);
    s = narrow(w);
    fputs(s, fp);
    free(s);
    free(w);
    return 0;
}
int vkw_fputwc(wchar_t c, FILE *fp) { return fputc((int)c, fp); }

/* ---------------------------------------------------------------- dlfcn-win32 */
void *vkw_dlopen(const char *name, int flags)
{
    HMODULE h = load(name, (DWORD)flags, "dl");
    dl_err = NULL;
    if (!h) { snprintf(dl_buf, sizeof(dl_buf), "\"%.100s\": sys message %u %%s. ", name, (unsigned)last_error); dl_err = dl_buf; }
    return h;
}
void *vkw_dlsym(void *h, const char *name)
{
    FARPROC p = GetProcAddress((HMODULE)h, name);
    dl_err = NULL;
    if (!p) { snprintf(dl_buf, sizeof(dl_buf), "\"%.100s\": sys message %u %%s. ", name, (unsigned)last_error); dl_err = dl_buf; }
    return (void *)p;
}
int vkw_dlclose(void *h)
{
    BOOL b = FreeLibrary((HMODULE)h);
    dl_err = NULL;
    if (!b) { snprintf(dl_buf, sizeof(dl_buf), "\"handle\": sys message %u %%s. ", (unsigned)last_error); dl_err = dl_buf; }
    return b ? 0 : -1;
}
char *vkw_dlerror(void)
{
    char *p = (char *)dl_err;
    dl_err = NULL;
    return p;
}

/* ---------------------------------------------------------------- script */
int vkw_cmd(char *line)
{
    char *sv = NULL, *t = strtok_r(line, " \n", &sv), *a, *b, *s;
    struct vkw_mod *m;
    if (!strcmp(t, "mod") || !strcmp(t, "bad")) {
        m = (struct vkw_mod *)calloc(1, sizeof(*m));
        m->name = vkw_unhex(strtok_r(NULL, " \n", &sv));
        if (*t == 'b') m->bad = (unsigned)atoi(strtok_r(NULL, " \n", &sv));
        else {
            m->path = vkw_unhex(strtok_r(NULL, " \n", &sv));
            m->syms = (char **)calloc(256, sizeof(char *));
            while ((s = strtok_r(NULL, " ,\n", &sv))) m->syms[m->nsyms++] = strdup(s);
        }
        m->next = mods;
        mods = m;
    } else if (!strcmp(t, "fmt")) {
        a = strtok_r(NULL, " \n", &sv);
        fmt_mode = !strcmp(a, "fail") ? 1 : !strcmp(a, "long") ? 2 : 0;
        fmt_len = fmt_mode == 2 ? (size_t)atol(strtok_r(NULL, " \n", &sv)) : 0;
    } else if (!strcmp(t, "fault")) {
        a = strtok_r(NULL, " \n", &sv);
        b = strtok_r(NULL, " \n", &sv);
        if (!strcmp(a, "sym")) { free(f_sym); f_sym = strdup(b); f_symcode = (unsigned)atoi(strtok_r(NULL, " \n", &sv)); }
        else if (!strcmp(a, "open")) f_open = (unsigned)atoi(b);
        else if (!strcmp(a, "close")) f_close = (unsigned)atoi(b);
        else if (!strcmp(a, "modname")) f_modname = (unsigned)atoi(b);
        else if (!strcmp(a, "alloc")) f_alloc = atol(b);
        else if (!strcmp(a, "clear")) { free(f_sym); f_sym = NULL; f_open = f_close = f_modname = 0; f_alloc = 0; }
    } else return 0;
    return 1;
}
void vkw_end(void)
{
    struct vkw_mod *m, *n;
    vkw_log("END bufs %ld", live_bufs);
    for (m = mods; m; m = n) {
        int i;
        n = m->next;
        for (i = 0; i < m->nsyms; i++) free(m->syms[i]);
        free(m->syms); free(m->name); free(m->path); free(m);
    }
    mods = NULL;
    free(f_sym);
    f_sym = NULL;
}
