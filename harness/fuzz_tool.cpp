// libFuzzer target around the tool's own main() (compiled with -Dmain=gendlopen_main).
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

int gendlopen_main(int argc, char **argv);
extern "C" int yylex_destroy(void);

static std::string mkfile(int &fd, const char *name, const std::string &data)
{
    if (fd < 0) fd = memfd_create(name, 0);
    if (fd < 0) abort();
    if (ftruncate(fd, 0) != 0) abort();
    size_t off = 0;
    while (off < data.size()) {
        ssize_t n = pwrite(fd, data.data() + off, data.size() - off, (off_t)off);
        if (n <= 0) abort();
        off += (size_t)n;
    }
    return "/proc/self/fd/" + std::to_string(fd);
}

struct nullbuf : std::streambuf {
    size_t n = 0;
    int overflow(int c) override { n++; return c; }
    std::streamsize xsputn(const char *s, std::streamsize k) override {
        // touch what is printed
        volatile unsigned x = 0;
        for (std::streamsize i = 0; i < k; i++) x = x + (unsigned char)s[i];
        n += (size_t)k; return k;
    }
};

static const char *decls =
    "int vk_one(int a, const char *b);\nvoid vk_two(void);\nvoid vk_f(void (*cb)(int, ...), char *p);\n"
    "int vk_v(const char *fmt, ...);\nint vk_obj;\nchar vk_arr[3];\nint (*vk_fp)(int);\nconst char *vk_s(void);\n";

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static int fd1 = -1, fd2 = -1;
    static nullbuf nb;
    if (size < 2 || size > 60000) return 0;
    const unsigned mode = data[0] % 5, flags = data[1];
    std::string rest((const char *)data + 2, size - 2);
    std::vector<std::string> args = {"gendlopen"};
    static const char *fmts[] = {"c", "c++", "minimal", "minimal-c++", "plugin"};
    static const char *params[] = {"read", "skip", "create", "read"};
    args.push_back(std::string("-param=") + params[flags & 3]);
    if (flags & 4) args.push_back("-line");
    if (flags & 8) args.push_back("-no-pragma-once");
    std::string in = rest;
    switch (mode) {
    case 0:     // declarations, symbol listing
        args.push_back("-print-symbols");
        if (flags & 16) args.push_back("-Pv");
        if (flags & 32) args.push_back("-Sfoo");
        if (flags & 64) args.push_back("-ignore-options");
        break;
    case 1:     // AST dump
        in = ((flags & 128) ? "" : "TranslationUnitDecl 0x1 <<invalid sloc>>\n") + rest;
        args.push_back("-print-symbols");
        args.push_back((flags & 16) ? "-Pv" : (flags & 32) ? "-Svk_one" : "-ast-all-symbols");
        break;
    case 2:     // custom template
        in = decls;
        args.push_back("-template=" + mkfile(fd2, "tpl", rest));
        args[1] = (flags & 3) == 1 ? "-param=skip" : "-param=read";
        if (flags & 16) args.push_back("-prefix=xyz");
        break;
    case 3: {   // option values: NUL separated
        in = decls;
        args[1] = "-param=read";
        static const char *opts[] = {"-library=", "-D", "-include=", "-prefix=", "-P", "-S", "-format=", "-param=", "-library=nq:", "-library=ext:", "-library=api:", "-include=nq:"};
        size_t pos = 0;
        while (pos < rest.size()) {
            size_t e = rest.find('\0', pos);
            if (e == std::string::npos) e = rest.size();
            if (e > pos) {
                unsigned char k = (unsigned char)rest[pos];
                args.push_back(opts[k % 12] + rest.substr(pos + 1, e - pos - 1));
            }
            pos = e + 1;
            if (args.size() > 12) break;
        }
        if (flags & 16) args.push_back("-template=" + mkfile(fd2, "tpl", "GDO_x gdo_y gdo %%symbol%% %%sym_type%%\n"));
        else args.push_back("-print-symbols");
        break; }
    default:    // whole header from arbitrary declarations
        args.push_back(std::string("-format=") + fmts[(flags >> 4) % 5]);
        args.push_back("-no-date");
        break;
    }
    args.push_back(mkfile(fd1, "in", in));
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);

    std::ostringstream err;
    auto *o = std::cout.rdbuf(&nb);
    auto *e = std::cerr.rdbuf(err.rdbuf());
    std::cout.clear();
    int rc = gendlopen_main((int)args.size(), argv.data());
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    yylex_destroy();
    if (rc != 0 && rc != 1) { fprintf(stderr, "VK: unexpected status %d\n", rc); abort(); }
    if (rc != 0 && err.str().empty()) { fprintf(stderr, "VK: failure without a diagnostic\n"); abort(); }
    return 0;
}
