/* Executes a script against the minimal C++ output. */
#include "shim.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include VK_HEADER
#include "vk_tables.inc"

static void snap(const char *tag)
{
    char b[4096];
    int n = sprintf(b, "%s %d 0 0 0", tag, gdo::handle != nullptr);
    for (int i = 0; i < VK_COUNT && n < 4000; i++) n += sprintf(b + n, " %p", (void *)vk_ptr(i));
    vk_log("%s", b);
}

/* one operation; below 0: protocol error */
static int step(const char *cmd, char *a)
{
    int ret = -1;
    std::string c = cmd;
    if (c == "load") {
        char *s = vk_unhex(a);
        try {
            gdo::load_library_and_symbols(s);
            ret = 1;
        }
        catch (const gdo::LibraryError &e) {
            vk_logstr("T", (std::string("L:") + e.what()).c_str());
            ret = 0;
            if (!dynamic_cast<const std::runtime_error *>(&e)) ret = 3;
        }
        catch (const gdo::SymbolError &e) {
            vk_logstr("T", (std::string("S:") + e.what()).c_str());
            ret = 0;
        }
        catch (...) {
            vk_logstr("T", "other exception");
            ret = 4;
        }
        free(s);
    }
    else if (c == "free") { gdo::free_library(); ret = 2; }
    else return -92;
    return ret;
}

static void fin(int *op) { (void)op; }

#ifndef VK_MULTI
# include "main.inc"
#endif
