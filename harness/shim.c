#define _GNU_SOURCE
#include "shim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "plat/sys/ldr.h"

#if defined(__SANITIZE_ADDRESS__)
# define NODEEP RTLD_DEEPBIND         /* not possible with the sanitizer runtime */
#elif defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#  define NODEEP RTLD_DEEPBIND
# endif
#endif
#ifndef NODEEP
# define NODEEP 0
#endif

/* memory written by the (uninstrumented) loader */
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define KNOWN(p, n)  __msan_unpoison((p), (n))
#  define KNOWNS(s)    do { if (s) __msan_unpoison_string(s); } while (0)
# endif
#endif
#ifndef KNOWN
# define KNOWN(p, n)   (void)0
# define KNOWNS(s)     (void)0
#endif

/* ------------------------------------------------------------------ log */
static int log_fd = -2;

static int fd(void)
{
    if (log_fd == -2) {
        const char *p = getenv("VK_LOG");
        log_fd = p ? open(p, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644) : -1;
        if (log_fd >= 0 && log_fd < 100) {
            /* out of the way of descriptors the code under test may use */
            int n = fcntl(log_fd, F_DUPFD_CLOEXEC, 100);
            if (n >= 0) {
                close(log_fd);
                log_fd = n;
            }
        }
    }
    return log_fd;
}

static void put(const char *b, size_t n)
{
    while (n > 0 && fd() >= 0) {
        ssize_t w = write(log_fd, b, n);
        if (w < 0 && errno == EINTR) continue;
        if (w <= 0) _exit(97);
        b += w;
        n -= (size_t)w;
    }
}

void vk_log(const char *fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if ((size_t)n > sizeof(b) - 2) n = sizeof(b) - 2;
    b[n++] = '\n';
    put(b, (size_t)n);
}

void vk_logstr(const char *tag, const char *s)
{
    static const char hex[] = "0123456789abcdef";
    size_t n = s ? strlen(s) : 0, k = 0;
    char *b = (char *)malloc(strlen(tag) + 2 * n + 8);
    k = (size_t)sprintf(b, "%s ", tag);
    if (!s) {
        b[k++] = '~';
    } else {
        b[k++] = 'x';
        for (size_t i = 0; i < n; i++) {
            b[k++] = hex[(unsigned char)s[i] >> 4];
            b[k++] = hex[(unsigned char)s[i] & 15];
        }
    }
    b[k++] = '\n';
    put(b, k);
    free(b);
}

char *vk_unhex(const char *tok)
{
    if (tok[0] != 'x') return NULL;
    size_t n = strspn(tok + 1, "0123456789abcdef") / 2;
    char *s = (char *)malloc(n + 1);
    for (size_t i = 0; i < n; i++) {
        unsigned v;
        sscanf(tok + 1 + 2 * i, "%2x", &v);
        s[i] = (char)v;
    }
    s[n] = 0;
    return s;
}

/* ------------------------------------------------------------------ faults */
static long f_open, f_close, f_dlinfo, f_dladdr, f_atexit, f_errlen;
static long f_alloc;              /* this allocation fails (counted down) */
static long f_maps;               /* the process map cannot be read */
static int f_lname, f_fname;      /* 1 null 2 empty 3 long */
static char f_sym[64][300];
static int f_nsym;

void vk_fault(const char *k, long a)
{
    if (!strcmp(k, "open")) f_open = a;
    else if (!strcmp(k, "close")) f_close = a;
    else if (!strcmp(k, "dlinfo")) f_dlinfo = a;
    else if (!strcmp(k, "dladdr")) f_dladdr = a;
    else if (!strcmp(k, "atexit")) f_atexit = a;
    else if (!strcmp(k, "errlen")) f_errlen = a;
    else if (!strcmp(k, "maps")) f_maps = a;
    else if (!strcmp(k, "alloc")) f_alloc = a;
    else if (!strcmp(k, "lname")) f_lname = (int)a;
    else if (!strcmp(k, "fname")) f_fname = (int)a;
    else { vk_log("X unknown fault %s", k); _exit(96); }
}

void vk_fault_sym(const char *name)
{
    if (f_nsym < 64) snprintf(f_sym[f_nsym++], 300, "%s", name);
}

void vk_fault_clear(void)
{
    f_open = f_close = f_dlinfo = f_dladdr = f_atexit = f_errlen = f_maps = f_alloc = 0;
    f_lname = f_fname = f_nsym = 0;
}

int vk_fault_now(const char *line)
{
    char k[64], a[600];
    if (sscanf(line, "fault %63s %599s", k, a) == 2) {
        if (!strcmp(k, "sym")) vk_fault_sym(a);
        else vk_fault(k, atol(a));
        return 1;
    }
    if (!strncmp(line, "faultclear", 10)) {
        vk_fault_clear();
        return 1;
    }
    return 0;
}

/* ------------------------------------------------------------------ handles */
#define MAXH 4000
static struct vkh { char pad[16]; void *real; int open; } H[MAXH];
static int nh;

static char err_text[70000];
static int err_set;
static unsigned serial;

static void pend_clear(void) { err_set = 0; }

static void pend_fault(const char *what)
{
    size_t n = (size_t)sprintf(err_text, "vk injected %s failure #%u", what, ++serial);
    while (n < (size_t)f_errlen && n < sizeof(err_text) - 1) err_text[n] = (char)('a' + n % 26), n++;
    err_text[n] = 0;
    err_set = 1;
    vk_logstr("E err", err_text);
}

static void pend_real(void)
{
    const char *m = dlerror();
    KNOWNS(m);
    snprintf(err_text, sizeof(err_text), "%s", m ? m : "(none)");
    err_set = 1;
    vk_logstr("E err", err_text);
}

static int find(void *h, const char *fn)
{
    for (int i = 0; i < nh; i++)
        if (h == (void *)&H[i]) {
            if (!H[i].open) {
                vk_log("E bad %s closed %d", fn, i);
                return -1;
            }
            return i;
        }
    vk_log("E bad %s foreign %p", fn, h);
    return -1;
}

/* which file is mapped (independent of the loader's own records of names) */
static void log_file(int id, void *real)
{
    static char line[70000];
    struct link_map *lm = (struct link_map *)real;
    KNOWN(lm, sizeof(*lm));
    FILE *f = fopen("/proc/self/maps", "r");
    if (!f) return;
    while (fgets(line, sizeof(line), f)) {
        unsigned long long a, b;
        char *p = strchr(line, '/'), tag[40];
        if (sscanf(line, "%llx-%llx", &a, &b) != 2 || !p) continue;
        if ((unsigned long long)(size_t)lm->l_ld < a || (unsigned long long)(size_t)lm->l_ld >= b) continue;
        p[strcspn(p, "\n")] = 0;
        sprintf(tag, "E file %d", id);
        vk_logstr(tag, p);
        break;
    }
    fclose(f);
}

static void *opened(void *real, const char *path, int flags, long ns)
{
    if (!real) {
        vk_log("E openfail flags=%d ns=%ld", flags, ns);
        vk_logstr("E path", path);
        pend_real();
        return NULL;
    }
    if (nh >= MAXH) _exit(95);
    H[nh].real = real;
    H[nh].open = 1;
    vk_log("E open %d flags=%d ns=%ld h=%p", nh, flags, ns, (void *)&H[nh]);
    vk_logstr("E path", path);
    log_file(nh, real);
    for (int i = 0; vk_names[i]; i++) {
        vk_log("E addr %d %d %p", nh, i, dlsym(real, vk_names[i]));
    }
    dlerror();
    return &H[nh++];
}

void *__wrap_dlopen(const char *path, int flags)
{
    pend_clear();
    if (f_open) {
        f_open--;
        vk_log("E openfault flags=%d ns=0", flags);
        vk_logstr("E path", path);
        pend_fault("dlopen");
        return NULL;
    }
    /* AIX: 0x40000 is RTLD_MEMBER */
    const char *plat = getenv("VK_PLAT");
    int real = plat && !strcmp(plat, "aix") ? flags & ~0x40000 : flags;
    return opened(dlopen(path, real & ~NODEEP), path, flags, 0);
}

void *__wrap_dlmopen(Lmid_t ns, const char *path, int flags)
{
    pend_clear();
    if (f_open) {
        f_open--;
        vk_log("E openfault flags=%d ns=%ld", flags, (long)ns);
        vk_logstr("E path", path);
        pend_fault("dlmopen");
        return NULL;
    }
    return opened(dlmopen(ns, path, flags & ~NODEEP), path, flags, (long)ns);
}

void *__wrap_dlsym(void *h, const char *name)
{
    pend_clear();
    int i = find(h, "dlsym");
    if (i < 0) {
        pend_fault("dlsym-bad-handle");
        return NULL;
    }
    for (int k = 0; k < f_nsym; k++)
        if (!strcmp(f_sym[k], name)) {
            vk_log("E symfault %d %s", i, name);
            pend_fault("dlsym");
            return NULL;
        }
    void *p = dlsym(H[i].real, name);
    if (!p) {
        vk_log("E symfail %d %.300s", i, name);
        pend_real();
    } else {
        vk_log("E sym %d %s %p", i, name, p);
    }
    return p;
}

int __wrap_dlclose(void *h)
{
    pend_clear();
    int i = find(h, "dlclose");
    if (i < 0) {
        pend_fault("dlclose-bad-handle");
        return -1;
    }
    if (f_close) {
        f_close--;
        vk_log("E closefault %d", i);
        pend_fault("dlclose");
        return -1;
    }
    H[i].open = 0;
    vk_log("E close %d", i);
    int rv = dlclose(H[i].real);
    if (rv != 0) {
        vk_log("X real dlclose failed");
        pend_real();
    }
    return rv;
}

char *__wrap_dlerror(void)
{
    if (!err_set) return NULL;
    err_set = 0;
    return err_text;
}

static char longname[70000];

static const char *mk_long(int abs)
{
    memset(longname, 'p', sizeof(longname) - 1);
    longname[0] = abs ? '/' : 'r';
    return longname;
}

int __wrap_dlinfo(void *h, int req, void *info)
{
    static struct link_map copy;
    pend_clear();
    int i = find(h, "dlinfo");
    if (i < 0) {
        pend_fault("dlinfo-bad-handle");
        return -1;
    }
    if (f_dlinfo) {
        vk_log("E dlinfofault %d", i);
        pend_fault("dlinfo");
        return -1;
    }
    const char *plat = getenv("VK_PLAT");
    if (plat && !strcmp(plat, "netbsd")) req = req == 3 ? RTLD_DI_LINKMAP : -1;   /* its number differs */
    int rv = dlinfo(H[i].real, req, info);
    if (rv == 0 && req == RTLD_DI_LINKMAP) {
        KNOWN(info, sizeof(void *));
        KNOWN(*(void **)info, sizeof(struct link_map));
        KNOWNS((*(struct link_map **)info)->l_name);
    }
    if (rv == 0 && req == RTLD_DI_LINKMAP && f_lname) {
        copy = **(struct link_map **)info;
        copy.l_name = f_lname == 1 ? NULL : f_lname == 2 ? (char *)"" : (char *)mk_long(1);
        *(struct link_map **)info = &copy;
        vk_log("E dlinfo %d lname%d", i, f_lname);
        return rv;
    }
    if (rv != 0) pend_real();
    vk_log("E dlinfo %d rv=%d", i, rv);
    return rv;
}

int __wrap_dladdr(const void *addr, Dl_info *info)
{
    if (f_dladdr) {
        vk_log("E dladdrfault");
        return 0;
    }
    int rv = dladdr(addr, info);
    if (rv) {
        KNOWN(info, sizeof(*info));
        KNOWNS(info->dli_fname);
    }
    if (rv && f_fname) info->dli_fname = f_fname == 1 ? NULL : f_fname == 2 ? "" : mk_long(1);
    vk_log("E dladdr rv=%d", rv);
    return rv;
}

/* AIX: the list of loaded modules */
struct vkq { char *buf; size_t len, pos, last; int full; };
static const char vk_nosection;       /* where an empty section is */

static int add_module(struct dl_phdr_info *p, size_t size, void *arg)
{
    struct vkq *q = (struct vkq *)arg;
    uintptr_t t0 = UINTPTR_MAX, t1 = 0, d0 = UINTPTR_MAX, d1 = 0;
    static char name[70000];
    static unsigned longs;
    (void)size;
    for (int i = 0; i < p->dlpi_phnum; i++) {
        if (p->dlpi_phdr[i].p_type != PT_LOAD) continue;
        uintptr_t a = p->dlpi_addr + p->dlpi_phdr[i].p_vaddr, b = a + p->dlpi_phdr[i].p_memsz;
        if (p->dlpi_phdr[i].p_flags & PF_W) {
            if (a < d0) d0 = a;
            if (b > d1) d1 = b;
        } else {
            if (a < t0) t0 = a;
            if (b > t1) t1 = b;
        }
    }
    int lib = p->dlpi_name && p->dlpi_name[0];
    snprintf(name, sizeof(name) - 1, "%s", lib ? p->dlpi_name : "program");
    if (lib && f_lname == 3 && strstr(name, "/vk.")) snprintf(name, sizeof(name), "%.9500s%s", mk_long(1), longs++ % 2 ? "" : ".a(m.o)");
    if (lib && f_lname == 2) name[0] = 0;
    size_t n = strlen(name);
    char *m = n > 3 && name[n - 1] == ')' ? strrchr(name, '(') : NULL;
    if (m && m - name > 2 && !strncmp(m - 2, ".a", 2)) {
        *m = 0;                       /* path, NUL, member */
        name[n - 1] = 0;
    } else {
        name[n + 1] = 0;              /* no member */
        n++;
    }
    size_t len = (offsetof(struct ld_info, ldinfo_filename) + n + 1 + 7) & ~(size_t)7;
    if (q->pos + len > q->len) {
        q->full = 1;
        return 1;
    }
    struct ld_info e;
    memset(&e, 0, sizeof(e));
    e.ldinfo_textorg = t1 ? (void *)t0 : (void *)(d1 ? d0 : (uintptr_t)&vk_nosection);
    e.ldinfo_textsize = t1 ? t1 - t0 : 0;
    e.ldinfo_dataorg = d1 ? (void *)d0 : (void *)(t1 ? t0 : (uintptr_t)&vk_nosection);
    e.ldinfo_datasize = d1 ? d1 - d0 : 0;
    e.ldinfo_next = (unsigned)len;
    memcpy(q->buf + q->pos, &e, offsetof(struct ld_info, ldinfo_filename));
    memcpy(q->buf + q->pos + offsetof(struct ld_info, ldinfo_filename), name, n + 1);
    q->last = q->pos;
    q->pos += len;
    return 0;
}

/* what a failed call leaves in the buffer says nothing */
static void misleading(void *buffer, unsigned length)
{
    static const char other[] = "/usr/lib/vk-not-this.a\0shr.o";
    struct ld_info e;
    memset(&e, 0, sizeof(e));
    e.ldinfo_textorg = (void *)1;
    e.ldinfo_textsize = UINTPTR_MAX / 2;
    e.ldinfo_dataorg = (void *)1;
    if (length < offsetof(struct ld_info, ldinfo_filename) + sizeof(other)) return;
    memcpy(buffer, &e, offsetof(struct ld_info, ldinfo_filename));
    memcpy((char *)buffer + offsetof(struct ld_info, ldinfo_filename), other, sizeof(other));
}

int loadquery(int flags, void *buffer, unsigned int length)
{
    struct vkq q = { (char *)buffer, length, 0, 0, 0 };
    if (f_dlinfo || flags != L_GETINFO) {
        vk_log("E loadqueryfault");
        misleading(buffer, length);
        errno = EFAULT;
        return -1;
    }
    dl_iterate_phdr(add_module, &q);
    if (q.full) {
        vk_log("E loadquery full");
        misleading(buffer, length);
        errno = ENOMEM;
        return -1;
    }
    ((struct ld_info *)(q.buf + q.last))->ldinfo_next = 0;
    vk_log("E loadquery ok");
    return 0;
}

int __wrap_atexit(void (*fn)(void))
{
    if (f_atexit) {
        vk_log("E atexitfault");
        return -1;
    }
    vk_log("E atexit");
    return atexit(fn);
}

static int no_memory(const char *what)
{
    if (f_alloc == 0 || --f_alloc != 0) return 0;
    vk_log("E allocfault %s", what);
    errno = ENOMEM;
    return 1;
}

void *vk_malloc(size_t n) { return malloc(n); }
void *__wrap_malloc(size_t n) { return no_memory("malloc") ? NULL : malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return no_memory("calloc") ? NULL : calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return no_memory("realloc") ? NULL : realloc(p, n); }
char *__wrap_strdup(const char *s) { return no_memory("strdup") ? NULL : strdup(s); }

FILE *__wrap_fopen(const char *path, const char *mode)
{
    if (f_maps && path && !strncmp(path, "/proc/", 6)) {
        vk_log("E mapsfault");
        errno = EMFILE;
        return NULL;
    }
    return fopen(path, mode);
}

/* descriptors the code under test left open (or closed although they aren't its own) */
void vk_fds(void)
{
    static char seen[64], first = 1;
    for (int i = 0; i < 64; i++) {
        char is = fcntl(i, F_GETFD) != -1;
        if (first) seen[i] = is;
        else if (is != seen[i]) {
            vk_log("E fdleak %s", is ? "opened" : "closed");
            seen[i] = is;
        }
    }
    first = 0;
}
