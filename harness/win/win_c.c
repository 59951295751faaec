/* C and plugin and minimal output against the emulated Windows API; see checks/R14.py */
#include "vkw_impl.inc"
#include VKW_HEADER
#include "vkw_tables.inc"

#if defined(_UNICODE) && !defined(GDO_USE_DLOPEN)
#define UNHEX vkw_wunhex
#define LOGHEX vkw_logwhex
#else
#define UNHEX vkw_unhex
#define LOGHEX vkw_loghex
#endif

#define LIBTEXT(n, w) vkw_loghex("M", n), vkw_logwhex("M", w)
static void libnames(void)
{
    LIBTEXT(GDO_LIBNAMEA(foo, 1.2), GDO_LIBNAMEW(foo, 1.2));
    LIBTEXT(GDO_LIBEXTA, GDO_LIBEXTW);
    LOGHEX("M", GDO_LIBNAME(bar9, 0));
    LOGHEX("M", GDO_LIBEXT);
#ifdef VKW_CXX
    vkw_loghex("M", gdo::make_libname(std::string("b%sz"), 3).c_str());
#ifndef GDO_USE_DLOPEN
    vkw_logwhex("M", gdo::make_libname(std::wstring(L"b%sz"), 40).c_str());
#endif
#endif
}

#if defined(VKW_C)
static void snap(void)
{
    int i;
    const void *e;
    vkw_log("L %d", gdo_lib_is_loaded());
    vkw_log("Q %d %d %d", gdo_all_symbols_loaded(), gdo_no_symbols_loaded(), gdo_any_symbol_loaded());
    fputs("P", stdout);
    for (i = 0; i < VKW_COUNT; i++) fprintf(stdout, " %d", !vk_ptr(i) ? 0 : vk_ptr(i) == (uintptr_t)vkw_address(vkw_names[i]) ? 1 : 9);
    fputc('\n', stdout);
    e = gdo_last_error();
    LOGHEX("X", gdo_last_error());
    if (e != gdo_last_error()) vkw_log("X2 another pointer");
    LOGHEX("Y", gdo_last_error());
}
static int step(const char *c, char **a)
{
    int r = -2;
#ifdef GDO_DEFAULT_LIB
    if (!strcmp(c, "loadlib")) return gdo_load_lib();
    if (!strcmp(c, "loadlibsym")) return gdo_load_lib_and_symbols();
#endif
    if (!strcmp(c, "load") || !strcmp(c, "loadname") || !strcmp(c, "loadnamesym")) {
        gdo_char_t *f = (gdo_char_t *)UNHEX(a[0]);
        r = !strcmp(c, "load") ? gdo_load_lib_args(f, atoi(a[1]), atoi(a[2])) : !strcmp(c, "loadname") ? gdo_load_lib_name(f) : gdo_load_lib_name_and_symbols(f);
        free(f);
        return r;
    }
    if (!strcmp(c, "free")) return gdo_free_lib();
    if (!strcmp(c, "force")) { gdo_force_free_lib(); return 1; }
    if (!strcmp(c, "auto")) return gdo_enable_autorelease();
    if (!strcmp(c, "all")) return gdo_load_all_symbols();
    if (!strcmp(c, "sym")) return gdo_load_symbol(atoi(a[0]) < VKW_COUNT && atoi(a[0]) >= 0 ? vk_nums[atoi(a[0])] : atoi(a[0]));
    if (!strcmp(c, "symname")) { char *s = vkw_unhex(a[0]); r = gdo_load_symbol_name(s); free(s); return r; }
    if (!strcmp(c, "path")) { const gdo_char_t *p = gdo_library_path(); LOGHEX("F", p); return p != NULL; }
    if (!strcmp(c, "call")) return vk_call(atoi(a[0]), 1000);
    if (!strcmp(c, "nop")) return 1;
    return -99;
}
static void fin(void) {}
#elif defined(VKW_PLUGIN)
static gdo_plugin_t *slot[8];
static void snap(void) {}
static int step(const char *c, char **a)
{
    int k = atoi(a[0]), i, j, n = 0;
    if (!strcmp(c, "plug")) {
        gdo_char_t *f[64];
        for (n = 0; a[n + 1]; n++) f[n] = (gdo_char_t *)UNHEX(a[n + 1]);
        slot[k] = gdo_load_plugins((const gdo_char_t **)f, (size_t)n);
        for (i = 0; i < n; i++) free(f[i]);
        if (!slot[k]) return 0;
        vkw_log("G %d", (int)slot[k]->num);
        for (i = 0; i < n; i++) {
            gdo_handle_t *h = &slot[k]->list[i];
            LOGHEX("N", h->filename);
            fprintf(stdout, "H %d", h->handle != NULL);
            for (j = 0; j < VKW_COUNT; j++) fprintf(stdout, " %d", !vk_ptr(h, j) ? 0 : vk_ptr(h, j) == (uintptr_t)vkw_address(vkw_names[j]) ? 1 : 9);
            fputc('\n', stdout);
        }
        return 1;
    }
    if (!strcmp(c, "rel")) { gdo_release_plugins(slot[k]); slot[k] = NULL; return 1; }
    return -99;
}
static void fin(void) {}
#elif defined(VKW_MIN)
static void snap(void)
{
    int i;
    fputs("P", stdout);
    for (i = 0; i < VKW_COUNT; i++) fprintf(stdout, " %d", !vk_ptr(i) ? 0 : vk_ptr(i) == (uintptr_t)vkw_address(vkw_names[i]) ? 1 : 9);
    fputc('\n', stdout);
}
#ifdef VKW_MINCXX
static int step(const char *c, char **a)
{
    if (!strcmp(c, "min")) {
        char *f = vkw_unhex(a[0]);
        int r = 1;
        try { gdo::load_library_and_symbols(f); }
        catch (const gdo::LibraryError &e) { vkw_loghex("X", e.what()); r = 0; }
        catch (const gdo::SymbolError &e) { vkw_loghex("X", e.what()); r = 2; }
        free(f);
        vkw_log("L %d", gdo::handle != NULL);
        return r;
    }
    if (!strcmp(c, "minfree")) { gdo::free_library(); vkw_log("L %d", gdo::handle != NULL); return 1; }
    return -99;
}
#else
static int step(const char *c, char **a)
{
    if (!strcmp(c, "min")) {
        char *f = vkw_unhex(a[0]);
        const char *e = gdo_load_library_and_symbols(f);
        free(f);
        if (e) vkw_loghex("X", e);
        vkw_log("L %d", gdo_hndl.handle != NULL);
        return !e;
    }
    if (!strcmp(c, "minfree")) { gdo_free_library(); vkw_log("L %d", gdo_hndl.handle != NULL); return 1; }
    return -99;
}
#endif
static void fin(void) {}
#elif defined(VKW_CXX)
#ifdef GDO_USE_DLOPEN
#define CONVERT 0
#else
#define CONVERT 1
#endif
static gdo::dl *slot[8];
static int cur = -1;
static void snap(void)
{
    int i, k = cur;
    vkw_log("L %d", gdo::dl::lib_loaded());
    fputs("P", stdout);
    for (i = 0; i < VKW_COUNT; i++) fprintf(stdout, " %d", !vk_ptr(i) ? 0 : vk_ptr(i) == (uintptr_t)vkw_address(vkw_names[i]) ? 1 : 9);
    fputc('\n', stdout);
    if (k >= 0 && slot[k]) {
        vkw_log("Q %d %d %d", slot[k]->all_symbols_loaded(), slot[k]->no_symbols_loaded(), slot[k]->any_symbol_loaded());
        std::string s = slot[k]->error();
        vkw_loghex("X", s.c_str());
        if (s.size() != strlen(s.c_str())) vkw_log("NUL in error()");
        if (s != slot[k]->error()) vkw_log("X2 another text");
#if CONVERT
        std::wstring w = slot[k]->error_w();
        vkw_logwhex("Y", w.c_str());
        if (w.size() != wcslen(w.c_str())) vkw_log("NUL in error_w()");
#endif
        vkw_log("D %d %d", slot[k]->flags(), slot[k]->free_lib_in_dtor());
    }
}
static std::string S(const char *t) { char *p = vkw_unhex(t); std::string s(p ? p : ""); free(p); return s; }
static std::wstring W(const char *t) { wchar_t *p = vkw_wunhex(t); std::wstring s(p ? p : L""); free(p); return s; }
static int step(const char *c, char **a)
{
    int k = a[0] ? atoi(a[0]) : 0, r = 1;
    cur = k;
    if (!strcmp(c, "new")) slot[k] = new gdo::dl();
    else if (!strcmp(c, "newname")) slot[k] = new gdo::dl(S(a[1]), atoi(a[2]));
    else if (!strcmp(c, "del")) { delete slot[k]; slot[k] = nullptr; }
    else if (!strcmp(c, "load")) r = slot[k]->load(S(a[1]), atoi(a[2]));
#if CONVERT
    else if (!strcmp(c, "newconv")) slot[k] = new gdo::dl(atoi(a[3]) != 0, S(a[1]), atoi(a[2]));
    else if (!strcmp(c, "neww")) slot[k] = new gdo::dl(W(a[1]), atoi(a[2]));
    else if (!strcmp(c, "loadconv")) r = slot[k]->load(atoi(a[3]) != 0, S(a[1]), atoi(a[2]));
    else if (!strcmp(c, "loadw")) r = slot[k]->load(W(a[1]), atoi(a[2]));
    else if (!strcmp(c, "pathw")) { std::wstring s = slot[k]->library_path_w(); vkw_logwhex("F", s.c_str()); if (s.size() != wcslen(s.c_str())) vkw_log("NUL in path"); r = !s.empty(); }
    else if (!strcmp(c, "fnamew")) { std::wstring s = slot[k]->filename_w(); vkw_logwhex("F", s.c_str()); if (s.size() != wcslen(s.c_str())) vkw_log("NUL in filename_w()"); }
#endif
    else if (!strcmp(c, "load0")) r = slot[k]->load();
    else if (!strcmp(c, "loadsym")) r = slot[k]->load_lib_and_symbols();
    else if (!strcmp(c, "free")) r = slot[k]->free(atoi(a[1]) != 0);
    else if (!strcmp(c, "dtor")) slot[k]->free_lib_in_dtor(atoi(a[1]) != 0);
    else if (!strcmp(c, "all")) r = slot[k]->load_all_symbols();
    else if (!strcmp(c, "sym")) r = slot[k]->load_symbol(atoi(a[1]) < VKW_COUNT && atoi(a[1]) >= 0 ? vk_nums[atoi(a[1])] : atoi(a[1]));
    else if (!strcmp(c, "symname")) { char *s = vkw_unhex(a[1]); r = slot[k]->load_symbol(s); free(s); }
    else if (!strcmp(c, "path")) { std::string s = slot[k]->library_path(); vkw_loghex("F", s.c_str()); if (s.size() != strlen(s.c_str())) vkw_log("NUL in path"); r = !s.empty(); }
    else if (!strcmp(c, "fname")) { std::string s = slot[k]->filename(); vkw_loghex("F", s.c_str()); if (s.size() != strlen(s.c_str())) vkw_log("NUL in filename()"); }
    else if (!strcmp(c, "call")) { cur = -1; r = vk_call(atoi(a[0]), 1000); }
    else if (!strcmp(c, "nop")) cur = -1;
    else return -99;
    return r;
}
static void fin(void) { for (int k = 0; k < 8; k++) delete slot[k]; }
#endif

#ifdef __cplusplus
extern "C"
#endif
__attribute__((constructor(101))) void vkw_first(void);
void vkw_first(void) { atexit(vkw_end); }

int main(int argc, char **argv)
{
    static char line[400000], copy[400000];
    char *a[80], *sv, *t;
    int op = 0, n, r;
    FILE *in;
    setlocale(LC_ALL, "C.UTF-8");
    in = fopen(argv[1], "r");
    vkw_log("O -1 start");
    libnames();
    snap();
    while (fgets(line, sizeof(line), in)) {
        strcpy(copy, line);
        if (vkw_cmd(copy)) continue;
        for (n = 0, t = strtok_r(line, " \n", &sv); t && n < 79; t = strtok_r(NULL, " \n", &sv)) a[n++] = t;
        a[n] = NULL;
        if (!n) continue;
        SetLastError(49999);
        vkw_log("O %d %s", op++, a[0]);
        r = step(a[0], a + 1);
        if (r == -99) return 90;
        vkw_log("R %d", r);
        snap();
    }
    fclose(in);
    vkw_log("O %d end", op);
    fin();
    return 0;
}
