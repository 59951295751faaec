/* Executes a script of calls of the generated C++ interface (see vk/hist.py). */
#include "shim.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include VK_HEADER

#include "vk_tables.inc"

#ifndef VK_MULTI
static gdo::dl *obj[64];
#endif

static std::string str(const char *tok)
{
    char *s = vk_unhex(tok);
    std::string r = s ? s : "";
    free(s);
    return r;
}

static void snap(const char *tag)
{
    static gdo::dl *probe;
    if (!probe) {
        probe = new gdo::dl();
        probe->free_lib_in_dtor(false);
    }
    std::string b = std::string(tag) + " " + std::to_string(gdo::dl::lib_loaded()) + " " + std::to_string(probe->all_symbols_loaded()) + " " + std::to_string(probe->no_symbols_loaded()) + " " + std::to_string(probe->any_symbol_loaded());
    char t[40];
    for (int i = 0; i < VK_COUNT; i++) {
        snprintf(t, sizeof(t), " %p", (void *)vk_ptr(i));
        b += t;
    }
    for (int i = 0; i < 64; i++)
        if (obj[i] && (obj[i]->lib_loaded() != gdo::dl::lib_loaded() || obj[i]->all_symbols_loaded() != probe->all_symbols_loaded() ||
                       obj[i]->no_symbols_loaded() != probe->no_symbols_loaded() || obj[i]->any_symbol_loaded() != probe->any_symbol_loaded())) b += " disagree";
    vk_log("%s", b.c_str());
}

/* one operation; below 0: protocol error */
static int step(const char *cmd, char *a)
{
    /* a: object number and what follows it */
    int k = atoi(a);
    if (k < 0 || k > 63) return -93;
    a = strchr(a, ' ');
    static char none[1];
    a = a ? a + 1 : none;
    int ret = -1;
    std::string c = cmd;
    if (c == "new0") { obj[k] = new gdo::dl(); ret = 2; }
    else if (c == "new1") { obj[k] = new gdo::dl(str(a)); ret = 2; }
    else if (c == "new3") {
        int fl = 0, ns = 0;
        char *q = strchr(a, ' ');
        if (!q || sscanf(q, " %d %d", &fl, &ns) != 2) return -91;
        obj[k] = new gdo::dl(str(a), fl, ns != 0);
        ret = 2;
    }
    else if (c == "del") { delete obj[k]; obj[k] = nullptr; ret = 2; }
    else if (c == "dtor") { obj[k]->free_lib_in_dtor(a[0] == '1'); ret = obj[k]->free_lib_in_dtor(); }
    else if (c == "load") ret = obj[k]->load();
    else if (c == "loadsym") ret = obj[k]->load_lib_and_symbols();
    else if (c == "name") ret = obj[k]->load(str(a));
    else if (c == "args") {
        int fl = 0, ns = 0;
        char *q = strchr(a, ' ');
        if (!q || sscanf(q, " %d %d", &fl, &ns) != 2) return -91;
        ret = obj[k]->load(str(a), fl, ns != 0);
    }
    else if (c == "loaded") ret = gdo::dl::lib_loaded();
    else if (c == "flags") { vk_log("F %d", obj[k]->flags()); ret = 2; }
    else if (c == "filename") { vk_logstr("N", obj[k]->filename().c_str()); ret = 2; }
    else if (c == "free") ret = a[0] == '1' ? obj[k]->free(true) : a[0] == '0' ? obj[k]->free(false) : obj[k]->free();
    else if (c == "all") ret = obj[k]->load_all_symbols();
    else if (c == "sym") {
        ret = obj[k]->load_symbol(*a == '#' ? vk_nums[atoi(a + 1)] : (int)strtol(a + 1, NULL, 10));
    }
    else if (c == "symname") { char *s = vk_unhex(a); ret = obj[k]->load_symbol(const_cast<const char *>(s)); free(s); }
    else if (c == "err") { vk_logstr("T", obj[k]->error().c_str()); ret = 2; }
    else if (c == "path") {
        std::string p = obj[k]->library_path();
        vk_logstr("P", p.c_str());
        ret = !p.empty();
    }
    else if (c == "chdir") { ret = chdir(str(a).c_str()) ? 0 : 2; }
    else return -92;
    return ret;
}

static void fin(int *op)
{
    for (int i = 0; i < 64; i++) {
        if (obj[i]) vk_log("O %d delend", (*op)++);
        delete obj[i];
        obj[i] = nullptr;
    }
    vk_log("O %d fin", (*op)++);
}

#ifndef VK_MULTI
# include "main.inc"
#endif
