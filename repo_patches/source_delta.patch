From 8adb548b7f05612333db3ad5d10b2c6dc7e03ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 01/62] fix: don't drop -library names that begin with n, e or
 a

Only names with one of the special prefixes nq:, ext: or api:N: have a
special meaning. Any other name must be quoted and used as is.
---
 src/generate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..e499a79 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -160,7 +160,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_a = lib_w = str.substr(3);
             break;
         }
-        return {};
+        [[fallthrough]];
 
     case 'E':
     case 'e':
@@ -171,7 +171,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
             break;
         }
-        return {};
+        [[fallthrough]];
 
     case 'A':
     case 'a':
@@ -188,7 +188,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
                 break;
             }
         }
-        return {};
+        [[fallthrough]];
 
     default:
         /* quote string */
-- 
2.43.0


From 902970668920eb7b7f7d1babb0ca9cf9012acf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 02/62] fix: report any exception as error instead of aborting

std::filesystem_error, for example thrown on -force with a non-empty
directory as output or on an overly long filename, was not handled.
---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..63ba438 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -66,6 +67,11 @@ int main(int argc, char **argv)
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
+    catch (const std::exception &e) {
+        /* std::filesystem_error, etc. */
+        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 0d331c0e9891d9b3161051782461723017394087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 03/62] fix: exit with an error if writing output has failed

The state of the output streams was never checked, so a full disk or a
closed STDOUT resulted in truncated output and exit status 0.
---
 src/cio_ofstream.cpp | 10 +++++++++-
 src/cio_ofstream.hpp |  3 ++-
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  3 +++
 src/generate.cpp     | 15 ++++++++++++++-
 src/options.cpp      | 18 ++++++++++++++----
 7 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..2cb9136 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -52,13 +52,21 @@ bool ofstream::open(const std::string &file)
     return open_path(file);
 }
 
-void ofstream::close()
+bool ofstream::close()
 {
+    bool rv;
+
     if (m_ofs.is_open()) {
         m_ofs.close();
+        rv = !m_ofs.fail();
+    } else {
+        std::cout.flush();
+        rv = !std::cout.fail();
     }
 
     m_optr = &std::cout;
+
+    return rv;
 }
 
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..436a8c4 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -64,7 +64,8 @@ public:
     bool open(const std::filesystem::path &path);
     bool open(const std::string &file);
 
-    void close();
+    /* returns false if writing data has failed */
+    bool close();
 
     /* overloading "<<" operator */
     template<class T>
diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..844f284 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -129,6 +129,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.close()) {
+            throw gendlopen::error(std::string("failed to write to file: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..c016447 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -210,6 +210,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream(m_output);
 }
 
 
@@ -249,5 +251,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!out.close()) {
+        throw error("failed to write to STDOUT");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..2a84b42 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,9 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+
+    /* close output stream and make sure all data was written */
+    void close_ofstream(const std::filesystem::path &opath);
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index e499a79..87be2af 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -370,6 +370,17 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output stream and make sure all data was written */
+void close_ofstream(const fs::path &opath)
+{
+    if (!ofs.close()) {
+        if (opath.empty() || opath == "-") {
+            throw gendlopen::error("failed to write to STDOUT");
+        }
+        throw gendlopen::error("failed to write to file: " + opath.string());
+    }
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -519,7 +530,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream(ofhdr);
 
 
     /**************** body data ****************/
@@ -531,6 +542,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream(ofbody);
     }
 }
 
diff --git a/src/options.cpp b/src/options.cpp
index ae2fa63..7726e1b 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -78,6 +78,16 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
         throw gendlopen::error_cmd(msg);
     };
 
+    /* exit after printing to STDOUT */
+    auto exit_success = [] () {
+        std::cout.flush();
+
+        if (std::cout.fail()) {
+            throw gendlopen::error("failed to write to STDOUT");
+        }
+        std::exit(0);
+    };
+
     const char *input_file = NULL;
     const char *p = NULL;
 
@@ -93,17 +103,17 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             }
         } else if (o.flag("?") || o.flag("help")) {
             help::print(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("full-help")) {
             help::print_full(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("ast-all-symbols")) {
             ast_all_symbols(true);
         } else if (o.arg(p, "D")) {
             add_def(p);
         } else if (o.arg(p, "dump-templates")) {
             dump_templates(p);
-            std::exit(0);
+            exit_success();
         } else if (o.arg(p, "format")) {
             format(p);
         } else if (o.flag("force")) {
@@ -140,7 +150,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             templates_path(p);
         } else if (o.flag("version")) {
             std::cout << "gendlopen " << gendlopen::version() << std::endl;
-            std::exit(0);
+            exit_success();
         } else {
             throw gendlopen::error_cmd(std::string("unknown option: ") + o.current());
         }
-- 
2.43.0


From 5cc10c39afc1fe262178e80ba2303ad115ec69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 04/62] fix: use license and filename macros from
 -templates-path

The list pointers were read before the templates were loaded. A second
load on -separate appended to the same vector and left a dangling
pointer behind, which crashed.
---
 src/data.cpp      | 3 +++
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index 844f284..a826969 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -74,6 +74,9 @@ namespace /* anonymous */
 
         FILE *fp = ofs.file_pointer();
 
+        /* the template may have been loaded before */
+        data.clear();
+
         template_t entry;
         entry.maybe_keyword = false;
         entry.line_count = 1;
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 2a84b42..802dda3 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -109,7 +109,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t * const &data);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index 87be2af..9813f8d 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -398,12 +398,15 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t * const &data)
 {
     size_t total_lines = 0;
 
+    /* this may change what `data' points to */
     load_template(file);
 
+    const template_t *list = data;
+
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
         list++;
-- 
2.43.0


From f6d9e0014750a2982d13ae62dc40dc24556cc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 05/62] fix: make dumped templates identical to the built-in
 ones

-dump-templates added a #line directive to the beginning of each file
and loading a template through -templates-path added an empty line to
the end, as well as an extra line after the initial #line directive.
---
 src/data.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index a826969..5f0dc2c 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -86,7 +86,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + "\"";
             }
 
             data.push_back(entry);
@@ -95,7 +95,11 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
-            data.push_back(entry);
+
+            /* no extra line after the last linefeed */
+            if (rv || !entry.data.empty()) {
+                data.push_back(entry);
+            }
         }
 
         entry = { {}, 0, 0 };
@@ -116,6 +120,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* skip initial line directive, it's not part of the template */
+        if (strncmp(list->data.c_str(), "#line", 5) == 0) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
-- 
2.43.0


From 87b79a232358c65309b3c347f7f20f3fb6cfc0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 06/62] fix: don't lose the variable arguments of functions in
 a Clang AST

There is no ParmVarDecl node for `...', it's only part of the type.
---
 src/clang_ast.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..3b8d5c5 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -129,6 +129,25 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     return true;
 }
 
+
+/* check if the parameter list ends on `...'
+ *
+ * pos: position of the list's opening parenthesis in string */
+bool is_variadic(const std::string &type, size_t pos)
+{
+    int scope = 0;
+
+    for ( ; pos < type.size(); pos++) {
+        if (type[pos] == '(') {
+            scope++;
+        } else if (type[pos] == ')' && --scope == 0) {
+            return type.substr(0, pos).ends_with("...");
+        }
+    }
+
+    return false;
+}
+
 } /* end anonymous namespace */
 
 
@@ -216,6 +235,10 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        if (is_variadic(m.str(2), pos)) {
+            proto.args += "...";
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From 749fe2981d3cf980b61fadfe64442150caafd9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 07/62] fix: find listed symbols in Clang AST that also match a
 prefix

Using -S on a symbol that was already matched by -P resulted in an error
that the symbol wasn't found.
---
 src/clang_ast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 3b8d5c5..68421ac 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -203,8 +203,9 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
+        /* always erase from list if found */
+        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
+            !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
             return 0;
         }
-- 
2.43.0


From 6454a8c073ddcfa16f0cf6ac0d53ddeb55526322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 08/62] fix: ignore redeclared symbols in a Clang AST

Symbols that were declared more than once were also saved more than
once and the output did not compile.
---
 src/clang_ast.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 68421ac..e1d5af7 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,6 +54,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <algorithm>
 #include <regex>
 #include <string>
 #include <vector>
@@ -187,6 +188,17 @@ int gendlopen::get_declarations(filter::mode mode)
     proto.saved     = false;
     proto.symbol    = m.str(1);
 
+    /* ignore redeclarations */
+    auto same_symbol = [&proto] (const proto_t &p) {
+        return (p.symbol == proto.symbol);
+    };
+
+    if (std::any_of(m_prototypes.begin(), m_prototypes.end(), same_symbol) ||
+        std::any_of(m_objects.begin(), m_objects.end(), same_symbol))
+    {
+        return 0;
+    }
+
     switch (mode)
     {
     case filter::prefix:
-- 
2.43.0


From bdbc2bff91e84fd5d4a263cde097f63293241ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 09/62] fix: don't use `...' as a parameter name on
 -param=create

The wrapper functions of variable argument functions did not compile.
---
 src/parameter_names.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..64e1c75 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -240,7 +240,6 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
         /* don't append anything to `...' */
         if (v.size() == 1 && v.front() == "...") {
             proto.args += "... , ";
-            proto.param_names += "... , ";
             continue;
         }
 
-- 
2.43.0


From 021de317bbea220d4bb4ac022eca1afdfe44045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 10/62] fix: don't search replaced text again in
 utils::replace()

The search always started at the beginning of the string, which was an
endless loop if the replacement contained the searched string (possible
with types read from a Clang AST).
---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..8bdc3c8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -146,7 +146,7 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0


From 7a2e4e9009f18832b827f31fee569994cd5aa55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 11/62] fix: don't exhaust the stack on long lines in a Clang
 AST

---
 src/clang_ast.cpp | 116 ++++++++++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 41 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index e1d5af7..7d40e63 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -55,7 +55,6 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 
 #include <stddef.h>
 #include <algorithm>
-#include <regex>
 #include <string>
 #include <vector>
 #include "gendlopen.hpp"
@@ -76,31 +75,78 @@ constexpr const char *err_no_symbols =
 /* strip ANSI colors and Windows line endings from line */
 std::string strip_line(const char *line)
 {
-    const std::regex reg(R"(\x1B\[[0-9;]*m)");
-
-    std::string s = line;
+    std::string out, s = line;
+    size_t end, pos = 0;
 
     /* remains of Windows line endings */
     utils::delete_suffix(s, '\r');
 
-    return s.empty() ? "" : std::regex_replace(s, reg, "");
+    while (pos < s.size()) {
+        /* skip escape sequence */
+        if (s.compare(pos, 2, "\x1B[") == 0 &&
+            (end = s.find_first_not_of("0123456789;", pos + 2)) != std::string::npos &&
+            s.at(end) == 'm')
+        {
+            pos = end + 1;
+            continue;
+        }
+
+        out += s.at(pos++);
+    }
+
+    return out;
 }
 
 
-/* get function parameter declaration */
-bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+/* get the first quoted type from a line (beginning at "pos")
+ *
+ * if "symbol" is not NULL it will be set to the
+ * symbol name that must precede the type */
+bool get_type(const std::string &line, size_t pos, std::string &type, std::string *symbol)
 {
-    std::smatch m;
-    size_t pos;
+    const char *identifier =
+        "abcdefghijklmnopqrstuvwxyz"
+        "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+        "0123456789_";
+
+    while ((pos = line.find(" '", pos)) != std::string::npos) {
+        const size_t begin = pos + 2;
+        const size_t end = line.find('\'', begin);
+
+        if (end == std::string::npos) {
+            break;
+        }
+
+        if (symbol) {
+            const size_t space = line.find_last_not_of(identifier, pos - 1);
 
-    const std::regex reg(
-        "^[| ] [|`]-ParmVarDecl 0x.*?"
-        " '(.*?)'.*"  /* type */
-    );
+            if (space == std::string::npos || line.at(space) != ' ') {
+                /* not preceded by a symbol name */
+                pos++;
+                continue;
+            }
+
+            *symbol = line.substr(space + 1, pos - space - 1);
+        }
+
+        type = line.substr(begin, end - begin);
+        return true;
+    }
+
+    return false;
+}
 
+
+/* get function parameter declaration */
+bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+{
+    const std::string needle = "-ParmVarDecl 0x";
     const std::string line = strip_line(lex::text());
+    std::string type;
+    size_t pos;
 
-    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
+    /* "| |-", "| `-", "  |-" or "  `-" */
+    if (line.find(needle) != 3 || !get_type(line, 3 + needle.size(), type, NULL)) {
         return false;
     }
 
@@ -109,14 +155,13 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(m.str(1), "(*)", pos)) {
+    if (utils::find(type, "(*)", pos)) {
         /* function pointer */
-        std::string str = m.str(1);
-        str.insert(pos + 2, name);
-        args += str + ", ";
+        type.insert(pos + 2, name);
+        args += type + ", ";
     } else {
         /* regular parameter */
-        args += m.str(1);
+        args += type;
 
         if (!args.ends_with('*')) {
             args += ' ';
@@ -155,29 +200,18 @@ bool is_variadic(const std::string &type, size_t pos)
 /* get function or variable declaration (initialization of prototype structs) */
 int gendlopen::get_declarations(filter::mode mode)
 {
-    std::smatch m;
-
-    const std::regex reg_func(
-        "^[|`]-FunctionDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
-    const std::regex reg_var(
-        "^[|`]-VarDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
     const std::string line = strip_line(lex::text());
+    std::string symbol, type;
 
     if (line.empty()) {
         return 0;
     }
 
     const bool is_function = (utils::str_at(line, 2) == 'F');
+    const std::string needle = is_function ? "-FunctionDecl 0x" : "-VarDecl 0x";
 
-    if (!std::regex_match(line, m, is_function ? reg_func : reg_var) || m.size() != 3) {
+    /* "|-" or "`-" */
+    if (line.find(needle) != 1 || !get_type(line, 1 + needle.size(), type, &symbol)) {
         return 0;
     }
 
@@ -186,7 +220,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
     proto.prototype = proto::function;
     proto.saved     = false;
-    proto.symbol    = m.str(1);
+    proto.symbol    = symbol;
 
     /* ignore redeclarations */
     auto same_symbol = [&proto] (const proto_t &p) {
@@ -232,13 +266,13 @@ int gendlopen::get_declarations(filter::mode mode)
         size_t pos;
         int rv, param_count = 1;
 
-        if (!utils::find(m.str(2), '(', pos)) {
+        if (!utils::find(type, '(', pos)) {
             return 0;
         }
 
         proto.prototype = proto::function;
 
-        proto.type = m.str(2).substr(0, pos);
+        proto.type = type.substr(0, pos);
         utils::strip_spaces(proto.type);
 
         /* read next lines for parameters */
@@ -248,7 +282,7 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
-        if (is_variadic(m.str(2), pos)) {
+        if (is_variadic(type, pos)) {
             proto.args += "...";
         }
 
@@ -261,15 +295,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*)")) {
+        if (utils::find(type, "(*)")) {
             proto.prototype = proto::function_pointer;
-        } else if (utils::find(m.str(2), '[')) {
+        } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
         } else {
             proto.prototype = proto::object;
         }
 
-        proto.type = m.str(2);
+        proto.type = type;
         utils::strip_spaces(proto.type);
 
         m_objects.push_back(std::move(proto));
-- 
2.43.0


From 84f9479821f79b39d8573866dc4a1abab342d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 12/62] fix: don't exhaust the stack on long api: library names

---
 src/generate.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 9813f8d..1c8bc65 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -34,7 +34,6 @@
 #include <locale>
 #include <iomanip>
 #include <iostream>
-#include <regex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -177,14 +176,15 @@ std::string format_libname(const std::string &str, const std::string &pfx)
     case 'a':
         /* no quotes, API libname macro */
         if (utils::prefixed_and_longer_case(str, "api:")) {
-            const std::regex reg("(.*?):(.*)");
-            std::smatch m;
             auto sub = str.substr(4);
+            size_t pos;
+
+            if (utils::find(sub, ':', pos)) {
+                auto name_api = sub.substr(pos + 1) + ',' + sub.substr(0, pos);
 
-            if (std::regex_match(sub, m, reg) && m.size() == 3) {
                 /* GDO_LIBNAMEA(xxx,0) */
-                lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
-                lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
+                lib_a = pfx + "_LIBNAMEA(" + name_api + ')';
+                lib_w = pfx + "_LIBNAMEW(" + name_api + ')';
                 break;
             }
         }
-- 
2.43.0


From 3fe54d608caaaf75f231d01dc379c376f1da8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 13/62] fix: keep the void parameter of functions in a Clang
 AST

---
 src/clang_ast.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 7d40e63..2ba98f4 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -284,6 +284,8 @@ int gendlopen::get_declarations(filter::mode mode)
 
         if (is_variadic(type, pos)) {
             proto.args += "...";
+        } else if (proto.args.empty() && type.compare(pos, 6, "(void)") == 0) {
+            proto.args = "void";
         }
 
         utils::delete_suffix(proto.args, ", ");
-- 
2.43.0


From 45955feb85a22f07b346f21888a96d9febc660e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 14/62] fix: put parentheses around object aliases

---
 src/templates/c.c               | 2 +-
 src/templates/c.h               | 2 +-
 src/templates/cxx.cpp           | 2 +-
 src/templates/cxx.hpp           | 2 +-
 src/templates/minimal.h         | 2 +-
 src/templates/minimal_cxxeh.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..2e09dfe 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -980,7 +980,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..ff99f12 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -297,7 +297,7 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..d83d613 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1080,7 +1080,7 @@ namespace gdo
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 5808444..3c02fff 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -508,7 +508,7 @@ namespace gdo {
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..638d506 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -109,7 +109,7 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo_hndl.GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo_hndl.GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo_hndl.GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..f3248e5 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -149,7 +149,7 @@ namespace gdo
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo::GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo::GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo::GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
-- 
2.43.0


From 1af20b76da7d0ed2d594fd112dac944999e8c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 15/62] fix: don't alias visible wrapper functions in C
 single-file output

---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2e09dfe..2796997 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -975,7 +975,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From 0f221228149bb192771a1826b6cf6b21189157e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 16/62] fix: C++ output with const objects failed to compile

---
 src/templates/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index d83d613..211c4e5 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -428,7 +428,7 @@ bool gdo::dl::get_library_path(void)
         auto info = reinterpret_cast<struct ld_info *>(buf);
 
         if (false
-            || aix_libpath(info, reinterpret_cast<uint8_t *>(GDO_RAWPTR_%%symbol%%))
+            || aix_libpath(info, (uint8_t *)(GDO_RAWPTR_%%symbol%%))
         ) {
             return true;
         }
@@ -484,7 +484,7 @@ bool gdo::dl::get_library_path_dladdr(void)
     }
 
     if (false
-        || _gdo_call_dladdr(reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%), &info)
+        || _gdo_call_dladdr((void *)(GDO_RAWPTR_%%symbol%%), &info)
     ) {
         m_libpath = info.dli_fname;
         return true;
-- 
2.43.0


From 91c235e030c7b283ce8e97e98040a81394fab842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 17/62] fix: offsets and device numbers in /proc/self/maps are
 hexadecimal

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..183b56d 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -157,7 +157,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
     while (getline(&line, &n, fp) != -1) {
         /* address start-end         mode offset   device inode      pathname */
         /* 7de29d200000-7de29d228000 r--p 00000000 103:01 2758110    /usr/lib/x86_64-linux-gnu/libc.so.6\n */
-        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\n]",
+        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
         if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
-- 
2.43.0


From 65c111de5e797f427ca9139929276c1fb10a46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 18/62] fix: don't return the library path of a previously
 loaded library

---
 src/templates/cxx.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 211c4e5..bd8ade5 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -953,11 +953,6 @@ std::string gdo::dl::library_path()
         return {};
     }
 
-    /* was the library path already saved? */
-    if (!m_libpath.empty()) {
-        return m_libpath;
-    }
-
 #if defined(GDO_DLFCN_WIN32) || defined(_AIX)
     if (get_library_path()) {
         return m_libpath;
-- 
2.43.0


From 32e0803f644b2e3888917c2d056101fbbcb22342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 19/62] fix: free a previously loaded library in the minimal
 formats

---
 src/templates/minimal.h         | 3 +++
 src/templates/minimal_cxxeh.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 638d506..6c5b8d4 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -62,6 +62,9 @@ GDO_LINKAGE void gdo_free_library(void)
  */
 GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
 {
+    /* free a previously loaded library */
+    gdo_free_library();
+
     if (!filename) {
         return "filename is <NULL>";
     } else if (!*filename) {
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index f3248e5..4c8c548 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -101,6 +101,9 @@ namespace gdo
      */
     void load_library_and_symbols(const char *filename) noexcept(false)
     {
+        /* free a previously loaded library */
+        free_library();
+
         if (filename == NULL) {
             throw LibraryError("<NULL>");
         } else if (*filename == 0) {
-- 
2.43.0


From 5d70a70d499f23575e67ca820f890f96175a8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 20/62] fix: don't use the library name as part of a format
 string

---
 src/templates/c.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2796997..7d0ed6d 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -881,23 +881,26 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *lib, const gdo_char_t *sym, const gdo_char_t *msg)
 {
+    /* the library name may contain "%" */
+    const gdo_char_t *fmt = _T("%s%s%s: %s");
+
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, prefix, lib, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
+    _ftprintf_s(stderr, fmt, prefix, lib, sym, msg);
     _fputtc(_T('\n'), stderr);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
+    fprintf(stderr, fmt, prefix, lib, sym, msg);
     fputc('\n', stderr);
 
 #endif //!_WIN32
@@ -940,9 +943,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: "), _T(""), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: "), GDO_DEFAULT_LIB _T(": "), sym, msg);
     }
 
     gdo_force_free_lib();
@@ -959,7 +962,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error: "), _T(""), sym, msg);
 
     abort();
 
-- 
2.43.0


From 1902f3c15a34425b91a7582f8b6ef0d141c4b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 21/62] fix: a line split ends at the first line ending

---
 src/lex.l    |   2 +-
 src/lex.yy.c | 224 +++++++++++++++++++++++++--------------------------
 2 files changed, 111 insertions(+), 115 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 351f667..8e60a77 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -43,7 +43,7 @@ void set_illegal_char();
 
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
-split               "\\"[[:space:]]*?"\n"
+split               "\\"[ \t\v\f\r]*"\n"
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
diff --git a/src/lex.yy.c b/src/lex.yy.c
index f09ddf6..e41a98d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -456,36 +456,36 @@ static const YY_CHAR yy_meta[50] =
 
 static const flex_int16_t yy_base[273] =
     {   0,
-        0,   48,  479,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  481,  483,  483,  483,  483,  469,
-       76,    0,  483,  483,   54,  439,  435,  442,  483,  483,
-      429,   97,  102,  451,  483,  438,  435,  425,  483,  483,
-      447,  465,  459,   85,    0,  483,  483,  107,  483,  483,
-      111,  483,  483,   94,  483,  483,  106,  118,  483,  483,
-       99,  457,  483,  483,  123,    0,  426,  426,  427,  427,
-      431,  414,  127,  483,  121,  424,  433,  411,  124,   96,
-      123,    0,  142,  146,  151,  157,  483,  161,  483,  483,
-      165,  169,  173,  483,  177,  483,  181,  185,  424,  427,
-
-      415,  425,  418,  483,  178,  432,  412,  416,  196,  191,
-      184,  440,  425,  407,  420,  206,  211,  216,  225,  230,
-      236,  483,  483,    0,  408,  417,  415,  408,  404,  409,
-      401,  415,  402,  432,  426,  147,   71,  229,  400,  396,
-      483,  483,  483,  483,  398,  392,  401,    0,  403,  393,
-      395,  403,  399,  232,  146,  397,  406,    0,    0,  392,
-      387,  386,  393,  236,  381,  394,  377,  386,    0,  376,
-      250,  374,  243,  157,  379,  246,  380,  383,  377,  483,
-      377,  384,  384,  254,  162,  370,  372,  377,  367,  258,
-      375,  366,  191,  359,  360,  261,  371,  349,  362,  346,
-
-      326,  334,  337,  268,  312,  317,  317,  321,  271,  260,
-        0,  315,  317,  320,  323,    0,  324,  304,  310,  276,
-      299,  315,  274,  283,  326,  298,  279,  263,  249,  214,
-      212,  286,  194,  213,  193,  293,  289,    0,  194,  299,
-      198,    0,  192,  191,  194,  298,  140,  301,  101,  308,
-      135,  314,  311,  324,    0,   93,    0,  323,  326,   87,
-      483,  360,  364,  368,  372,  376,  380,   73,  384,  388,
-      392,  396
+        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
+       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
+       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
+      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
+      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
+      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
+       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
+      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
+      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
+      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
+
+      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
+      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
+      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
+      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
+      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
+      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
+      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
+      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
+      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
+      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
+
+      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
+        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
+      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
+      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
+      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
+      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
+      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
+      366,  370
     } ;
 
 static const flex_int16_t yy_def[273] =
@@ -522,7 +522,7 @@ static const flex_int16_t yy_def[273] =
       261,  261
     } ;
 
-static const flex_int16_t yy_nxt[533] =
+static const flex_int16_t yy_nxt[512] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
        20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
@@ -538,54 +538,52 @@ static const flex_int16_t yy_nxt[533] =
        65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
        94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
        93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  229,
-      112,  114,  255,   83,   84,  115,   83,   83,   84,  166,
-       83,   80,   85,   86,  106,   85,   81,  111,   85,   86,
-      182,   85,  116,  117,  114,  116,  118,  119,  115,  118,
-       92,   93,  252,   92,   92,   93,  153,   92,  120,  121,
-      114,  120,   97,   98,  115,   97,   97,   98,  134,   97,
-      105,  105,  105,  122,  199,  200,  123,   73,   73,  132,
-
-       73,   74,  133,  110,  110,  110,  249,  116,  117,  135,
-      116,  106,  116,  117,  248,  116,  129,  118,  119,  247,
-      118,  246,  141,  243,  111,  240,  118,  119,  136,  118,
-      239,  120,  121,  142,  120,  238,  143,  120,  121,  235,
-      120,  154,  154,  154,  154,  154,  154,  144,  173,  173,
-      173,  180,  180,  234,  180,  173,  173,  173,  184,  184,
-      184,  233,  155,  215,  200,  155,  184,  184,  184,  174,
-      196,  196,  196,  196,  196,  196,  174,  228,  229,  185,
-      209,  209,  209,  209,  209,  209,  232,  185,  224,  224,
-      224,  197,  241,  229,  197,  224,  224,  224,  236,  236,
-
-      236,  210,  244,  245,  210,  236,  236,  236,  231,  225,
-      250,  250,  250,  253,  253,  253,  225,  244,  245,  237,
-      250,  250,  250,  253,  253,  253,  237,  256,  245,  230,
-      200,  251,  227,  226,  254,  259,  259,  259,  259,  259,
-      259,  251,  223,  222,  254,  221,  220,  219,  218,  217,
-      214,  213,  212,  211,  208,  207,  260,  206,  205,  260,
-       39,   39,   39,   39,   45,   45,   45,   45,   49,   49,
-       49,   49,   52,   52,   52,   52,   55,   55,   55,   55,
-       59,   59,   59,   59,   82,  204,  203,   82,  216,  216,
-      153,  216,  242,  242,  202,  242,  257,  257,  201,  257,
-
-      157,  198,  195,  194,  193,  192,  191,  190,  189,  188,
-      187,  186,  183,  181,  179,  178,  177,  176,  175,  172,
-      171,  170,  169,  168,  167,  165,  164,  163,  162,  161,
-      160,  159,  158,  157,  156,   81,   80,   76,   75,  151,
-      150,  149,  148,  147,  146,  145,  140,  139,  138,  137,
-      131,  130,  129,  128,  127,  126,  125,  124,  109,  108,
-      107,  104,  103,  102,  101,  100,   99,   96,   81,   80,
-       79,   78,   77,   76,   75,   72,   71,   70,   69,   62,
-      261,   40,   15,  261,  261,  261,  261,  261,  261,  261,
+       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
+      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
+       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
+      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
+       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
+       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
+      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
+
+      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
+      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
+      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
+      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
+      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
+      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
+      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
+      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
+      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
+      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
+
+      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
+      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
+      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
+      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
+       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
+       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
+      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
+      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
+      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
+      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
+
+      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
+      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
+      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
+      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
+      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
+       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
+       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
-static const flex_int16_t yy_chk[533] =
+static const flex_int16_t yy_chk[512] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -601,51 +599,49 @@ static const flex_int16_t yy_chk[533] =
        21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
        61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
        58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,  251,
-       80,   81,  249,   83,   83,   81,   83,   84,   84,  155,
-       84,  136,   85,   85,   75,   85,  136,   79,   86,   86,
-      174,   86,   88,   88,  155,   88,   91,   91,  155,   91,
-       92,   92,  247,   92,   93,   93,  174,   93,   95,   95,
-      185,   95,   97,   97,  185,   97,   98,   98,  111,   98,
-      105,  105,  105,   98,  193,  193,   98,  109,  109,  109,
-
-      109,  109,  109,  110,  110,  110,  245,  116,  116,  111,
-      116,  105,  117,  117,  244,  117,  109,  118,  118,  243,
-      118,  241,  117,  239,  110,  235,  119,  119,  111,  119,
-      234,  120,  120,  119,  120,  233,  119,  121,  121,  231,
-      121,  138,  138,  138,  154,  154,  154,  121,  164,  164,
-      164,  171,  171,  230,  171,  173,  173,  173,  176,  176,
-      176,  229,  138,  210,  210,  154,  184,  184,  184,  164,
-      190,  190,  190,  196,  196,  196,  173,  223,  223,  176,
-      204,  204,  204,  209,  209,  209,  228,  184,  220,  220,
-      220,  190,  237,  237,  196,  224,  224,  224,  232,  232,
-
-      232,  204,  240,  240,  209,  236,  236,  236,  227,  220,
-      246,  246,  246,  248,  248,  248,  224,  252,  252,  232,
-      250,  250,  250,  253,  253,  253,  236,  254,  254,  226,
-      225,  246,  222,  221,  248,  258,  258,  258,  259,  259,
-      259,  250,  219,  218,  253,  217,  215,  214,  213,  212,
-      208,  207,  206,  205,  203,  202,  258,  201,  200,  259,
-      262,  262,  262,  262,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  269,  199,  198,  269,  270,  270,
-      197,  270,  271,  271,  195,  271,  272,  272,  194,  272,
-
-      192,  191,  189,  188,  187,  186,  183,  182,  181,  179,
-      178,  177,  175,  172,  170,  168,  167,  166,  165,  163,
-      162,  161,  160,  157,  156,  153,  152,  151,  150,  149,
-      147,  146,  145,  140,  139,  135,  134,  133,  132,  131,
-      130,  129,  128,  127,  126,  125,  115,  114,  113,  112,
-      108,  107,  106,  103,  102,  101,  100,   99,   78,   77,
-       76,   72,   71,   70,   69,   68,   67,   62,   43,   42,
-       41,   38,   37,   36,   34,   31,   28,   27,   26,   20,
-       15,    3,  261,  261,  261,  261,  261,  261,  261,  261,
+       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
+       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
+       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
+      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
+       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
+      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
+      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
+
+      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
+      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
+      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
+      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
+      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
+      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
+      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
+      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
+      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
+      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
+
+      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
+      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
+      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
+      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
+      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
+      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
+      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
+      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
+      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
+      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
+
+      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
+      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
+      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
+      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
+       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
+       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
+        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-- 
2.43.0


From 1cfa64df9616934d74fd25691573d84aa51de61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 22/62] fix: a comment doesn't end a preprocessor line

---
 src/lex.l    | 6 +++---
 src/lex.yy.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 8e60a77..2e31f82 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -94,7 +94,7 @@ other               [*,()\[\]]
 
 {preproc}                   { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
-<PRE>"/"{split}"*"          { BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+<PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
 <PRE>{split}                { /* line split */ }
@@ -102,8 +102,8 @@ other               [*,()\[\]]
 <PRE>.                      { }
 
 <PRE_COMMENT>"*/"           { BEGIN(PRE); /* continue PRE line */ }
-<PRE_COMMENT>"*"{split}"/"  { BEGIN(INITIAL); /* end */ }
-<PRE_COMMENT>\n             { BEGIN(C_COMMENT); /* C comment */ }
+<PRE_COMMENT>"*"{split}"/"  { BEGIN(PRE); /* continue PRE line */ }
+<PRE_COMMENT>\n             { }
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index e41a98d..760f3a6 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -1099,7 +1099,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1131,12 +1131,12 @@ YY_RULE_SETUP
 case 31:
 /* rule 31 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ }
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-- 
2.43.0


From 58ee574b718b404b32b89aef835f47164d4f7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 23/62] fix: a comment can't begin in a string literal of a
 preprocessor line

---
 src/lex.l    |   3 +
 src/lex.yy.c | 512 ++++++++++++++++++++++++++-------------------------
 2 files changed, 266 insertions(+), 249 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 2e31f82..430304b 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -53,6 +53,8 @@ optstr              [^[:space:]]+
 
 preproc             ^({bom})?[[:space:]]*?"#"
 
+quoted              \"([^\\\"\n]|\\[^\n]|{split})*\"|\'([^\\\'\n]|\\[^\n]|{split})*\'
+
 identifier          [a-zA-Z0-9_]+
 other               [*,()\[\]]
 
@@ -98,6 +100,7 @@ other               [*,()\[\]]
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
 <PRE>{split}                { /* line split */ }
+<PRE>{quoted}               { /* string or character literal */ }
 <PRE>\n                     { BEGIN(INITIAL); /* end */ }
 <PRE>.                      { }
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 760f3a6..ab40c01 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 49
-#define YY_END_OF_BUFFER 50
+#define YY_NUM_RULES 50
+#define YY_END_OF_BUFFER 51
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,37 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[262] =
+static const flex_int16_t yy_accept[271] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   50,   48,   35,   35,   42,   48,
-       48,   41,   47,   46,   41,   41,   41,   41,   44,   45,
-       48,   35,   35,   48,   22,   48,   41,   48,    5,    4,
+        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
+       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
+       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
         5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   29,   28,   29,   29,   33,   32,
-       33,    0,   16,   11,    0,   41,   41,   41,   41,   41,
-       41,    0,    0,   22,    0,    0,   41,    0,    0,    0,
-        0,    8,    0,    7,    0,   13,   18,    0,   23,   25,
-        0,    0,   27,   30,    0,   43,    0,    0,   41,   41,
-
-       41,   41,   41,   34,    0,    0,    0,   41,   34,    0,
+       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
+       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
+       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+        0,   28,    0,    0,    0,   23,   25,    0,    0,   27,
+
+       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
+       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   17,   12,   39,   41,   41,   41,   41,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       19,   24,   26,   31,   41,   41,   41,   38,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,   36,   37,   41,
-        0,    0,   41,    0,    0,    0,    0,    0,   40,    0,
-        0,   41,    0,    0,    0,    0,    0,    0,    0,    6,
-       41,    0,    0,    0,    0,    0,    0,    0,   41,    0,
-        0,    0,    0,    0,   41,    0,    0,    0,    0,    0,
-
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-        2,    0,   41,    0,    0,    2,    0,   41,    0,    0,
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-       41,    0,    0,    0,   41,    0,    0,    3,    0,   41,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
+       24,   26,   32,   42,   42,   42,   39,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
+        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
+        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
+
+        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
+        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
+        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
+        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -418,238 +418,247 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         2,    2,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    4,    1,    1,    1,
-        1,    5,    1,    1,    6,    1,    7,    1,    1,    8,
-        8,    9,    1,    8,   10,   11,   12,   13,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,    1,   15,    1,
-       16,    1,    1,    1,   17,   17,   17,   18,   17,   19,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   20,
-       17,   17,   17,   21,   22,   23,   17,   17,   17,   17,
-       24,   25,    8,    1,   17,   26,   27,   17,   28,   29,
-
-       30,   31,   17,   17,   32,   17,   17,   33,   34,   35,
-       36,   37,   17,   38,   39,   40,   41,   17,   17,   42,
-       43,   17,   44,   45,   46,    1,    1,    1,    1,    1,
+        1,    5,    1,    6,    7,    1,    8,    1,    9,   10,
+       10,   11,    1,   10,   12,   13,   14,   15,   16,   16,
+       16,   16,   16,   16,   16,   16,   16,    1,   17,    1,
+       18,    1,    1,    1,   19,   19,   19,   20,   19,   21,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   22,
+       19,   19,   19,   23,   24,   25,   19,   19,   19,   19,
+       26,   27,   10,    1,   19,   28,   29,   19,   30,   31,
+
+       32,   33,   19,   19,   34,   19,   19,   35,   36,   37,
+       38,   39,   19,   40,   41,   42,   43,   19,   19,   44,
+       45,   19,   46,   47,   48,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,   47,    1,    1,    1,
-       48,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,   49,    1,    1,    1,
+       50,    1,    1,    1,    1,    1,    1,    1,    1,    1,
 
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,   49,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,   51,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[50] =
+static const YY_CHAR yy_meta[52] =
     {   0,
         1,    2,    3,    1,    2,    1,    1,    1,    1,    1,
-        1,    1,    4,    4,    1,    1,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    4,    4,    4,    4,
+        1,    1,    1,    1,    4,    4,    1,    1,    4,    4,
+        4,    4,    4,    4,    4,    1,    1,    1,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    1,    1,    1
+        4,    4,    4,    4,    4,    1,    1,    1,    1,    1,
+        1
     } ;
 
-static const flex_int16_t yy_base[273] =
+static const flex_int16_t yy_base[284] =
     {   0,
-        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
-       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
-      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
-      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
-      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
-       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
-      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
-      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
-      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
-
-      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
-      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
-      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
-      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
-      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
-      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
-      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
-      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
-      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
-      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
-
-      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
-        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
-      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
-      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
-      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
-      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
-      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
-      366,  370
+        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
+       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
+      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
+      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
+      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
+      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
+      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
+      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
+      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
+
+      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
+      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
+      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
+      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
+      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
+      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
+      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
+      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
+      385,  236,  170,  390,  250,  391,  394,  388,  498,  388,
+      395,  395,  253,  198,  381,  383,  388,  378,  258,  385,
+
+      373,  252,  364,  365,  261,  376,  354,  367,  351,  331,
+      339,  342,  264,  317,  322,  322,  326,  267,  255,    0,
+      320,  322,  325,  328,    0,  329,  310,  316,  275,  312,
+      321,  258,  289,  335,  304,  305,  309,  319,  290,  297,
+      292,  282,  304,  275,  297,  283,    0,  261,  291,  259,
+        0,  241,  223,  196,  300,  151,  303,  107,  306,  138,
+      294,  314,  297,    0,   91,    0,  328,  331,   76,  498,
+      367,  371,  375,  379,  383,  387,   71,  391,  395,  399,
+      403,  407,  411
     } ;
 
-static const flex_int16_t yy_def[273] =
+static const flex_int16_t yy_def[284] =
     {   0,
-      261,    1,  262,  262,  263,  263,  264,  264,  265,  265,
-      266,  266,  267,  267,  261,  261,  261,  261,  261,  261,
-      261,  268,  261,  261,  268,  268,  268,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  261,  261,  261,  269,  261,  261,  269,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  268,  268,  268,  268,  268,
-      268,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  269,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  268,  268,
-
-      268,  268,  268,  261,  261,  261,  261,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  268,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  268,  268,  268,
-      261,  261,  268,  261,  261,  261,  261,  261,  268,  261,
-      261,  268,  261,  261,  261,  261,  261,  261,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  268,  261,
-      261,  261,  261,  261,  268,  261,  261,  261,  261,  261,
-
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      270,  261,  268,  261,  261,  270,  261,  268,  261,  261,
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      268,  261,  261,  261,  268,  261,  261,  271,  261,  268,
-      261,  271,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  272,  261,  272,  261,  261,  261,
-        0,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
+      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
+      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
+      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
+      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
+      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
+      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
+      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
+      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
+      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
+      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
+      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
+      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
+
+      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
+      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
+      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
+      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270
     } ;
 
-static const flex_int16_t yy_nxt[512] =
+static const flex_int16_t yy_nxt[550] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
-       20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
-       22,   22,   22,   19,   16,   16,   22,   22,   22,   25,
-       22,   22,   22,   22,   22,   22,   22,   22,   26,   27,
-       28,   22,   22,   29,   16,   30,   16,   16,   31,   32,
-       33,   34,   32,   35,   36,   40,   41,   42,   46,   47,
-       50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
-       56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
-       57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  245,   58,   58,   81,   68,   38,   44,   73,   73,
-
-       65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
-       93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
-      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
-       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
-      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
-       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
-       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
-      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
-
-      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
-      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
-      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
-      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
-      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
-      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
-      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
-      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
-      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
-      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
-
-      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
-      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
-      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
-      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
-       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
-       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
-      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
-      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
-      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
-      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
-
-      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
-      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
-      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
-      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
-      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
-       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
-       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
+       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
+       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
+       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
+       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
+       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
+       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
+       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
+      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
+
+       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
+      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
+       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
+      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
+       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
+      264,  121,   92,   85,   86,  122,   85,   87,   88,   93,
+       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
+       95,  126,   94,  191,  126,  127,  128,  143,  127,   99,
+      100,  162,   99,  129,  130,  261,  129,  104,  105,  131,
+      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
+
+      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
+      258,  152,  125,   91,  113,  125,   92,  138,  121,  145,
+      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
+      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
+      163,  163,  182,  182,  182,   95,  189,  189,  257,  189,
+      182,  182,  182,  121,  164,  208,  209,  122,  224,  209,
+      164,  237,  238,  183,  193,  193,  193,  193,  193,  193,
+      256,  183,  205,  205,  205,  205,  205,  205,  218,  218,
+      218,  218,  218,  218,  255,  194,  250,  238,  194,  233,
+      233,  233,  252,  206,  253,  254,  206,  253,  254,  219,
+
+      265,  254,  219,  233,  233,  233,  245,  245,  245,  249,
+      234,  245,  245,  245,  259,  259,  259,  262,  262,  262,
+      259,  259,  259,  248,  234,  247,  244,  246,  262,  262,
+      262,  243,  246,  242,  241,  260,  240,  239,  263,  209,
+      236,  260,  268,  268,  268,  268,  268,  268,  235,  263,
+      232,  231,  230,  229,  228,  227,  226,  223,  222,  221,
+      220,  217,  216,  269,  215,  214,  269,   39,   39,   39,
+       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
+       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
+       61,   84,  213,  212,   84,   91,   91,  162,   91,   94,
+
+       94,  211,   94,  225,  225,  210,  225,  251,  251,  166,
+      251,  266,  266,  207,  266,  204,  203,  202,  201,  200,
+      199,  198,  197,  196,  195,  192,  190,  188,  187,  186,
+      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
+      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
+       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
+      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
+      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
+      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
+       74,   73,   72,   71,   64,  270,   40,   15,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
-static const flex_int16_t yy_chk[512] =
+static const flex_int16_t yy_chk[550] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
-        2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
-        7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  268,   14,    4,   11,
-       12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  260,   11,   12,   44,   25,    2,    4,   32,   32,
-
-       21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
-       58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
-       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
-       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
-      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
-       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
-      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
-      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
-
-      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
-      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
-      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
-      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
-      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
-      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
-      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
-      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
-      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
-      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
-
-      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
-      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
-      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
-      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
-      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
-      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
-      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
-      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
-      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
-      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
-
-      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
-      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
-      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
-       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
-       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
-        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
+        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
+       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
+      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
+
+        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
+       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
+       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
+       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
+       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
+      258,   83,   94,   85,   85,   83,   85,   87,   87,   91,
+       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
+       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
+       99,  146,   99,  102,  102,  256,  102,  104,  104,  105,
+      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
+
+      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
+      254,  128,  125,  125,  112,  125,  125,  116,  194,  118,
+      126,  126,  194,  126,  117,  127,  127,  126,  127,  129,
+      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
+      163,  163,  173,  173,  173,  126,  180,  180,  253,  180,
+      182,  182,  182,  164,  147,  202,  202,  164,  219,  219,
+      163,  232,  232,  173,  185,  185,  185,  193,  193,  193,
+      252,  182,  199,  199,  199,  205,  205,  205,  213,  213,
+      213,  218,  218,  218,  250,  185,  246,  246,  193,  229,
+      229,  229,  248,  199,  249,  249,  205,  261,  261,  213,
+
+      263,  263,  218,  233,  233,  233,  241,  241,  241,  244,
+      229,  245,  245,  245,  255,  255,  255,  257,  257,  257,
+      259,  259,  259,  243,  233,  242,  240,  241,  262,  262,
+      262,  239,  245,  238,  237,  255,  236,  235,  257,  234,
+      231,  259,  267,  267,  267,  268,  268,  268,  230,  262,
+      228,  227,  226,  224,  223,  222,  221,  217,  216,  215,
+      214,  212,  211,  267,  210,  209,  268,  271,  271,  271,
+      271,  272,  272,  272,  272,  273,  273,  273,  273,  274,
+      274,  274,  274,  275,  275,  275,  275,  276,  276,  276,
+      276,  278,  208,  207,  278,  279,  279,  206,  279,  280,
+
+      280,  204,  280,  281,  281,  203,  281,  282,  282,  201,
+      282,  283,  283,  200,  283,  198,  197,  196,  195,  192,
+      191,  190,  188,  187,  186,  184,  181,  179,  177,  176,
+      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
+      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
+      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
+      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
+      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
+       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
+       31,   28,   27,   26,   20,   15,    3,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[50] =
+static const flex_int32_t yy_rule_can_match_eol[51] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -957,13 +966,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 262 )
+				if ( yy_current_state >= 271 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 261 );
+		while ( yy_current_state != 270 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1118,66 +1127,67 @@ YY_RULE_SETUP
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* string or character literal */ }
 	YY_BREAK
 case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 31:
-/* rule 31 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
+/* rule 33 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 35:
-/* rule 35 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
@@ -1185,26 +1195,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 50:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1511,7 +1525,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 262 )
+			if ( yy_current_state >= 271 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1539,11 +1553,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 262 )
+		if ( yy_current_state >= 271 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 261);
+	yy_is_jam = (yy_current_state == 270);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 97aa312b5f910ef4bd9f8d840060d517839b0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 24/62] fix: don't use a type name as symbol name if the symbol
 is in parentheses

---
 src/parse.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..c4fd961 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -236,10 +236,12 @@ namespace /* anonymous */
         switch (utils::str_front(*it))
         {
         case '(':
-            return (check_function(v, p, it)                 || /* TYPE SYMBOL ( ) */
-                    check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
+            /* TYPE may consist of multiple identifiers,
+             * so `TYPE SYMBOL ( )' must come last */
+            return (check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
                     check_function_paren(v, p, it)           || /* TYPE ( SYMBOL ) ( ) */
-                    check_function_paren_pointer(v, p, it));    /* TYPE ( * SYMBOL ( ) ) */
+                    check_function_paren_pointer(v, p, it)   || /* TYPE ( * SYMBOL ( ) ) */
+                    check_function(v, p, it));                  /* TYPE SYMBOL ( ) */
 
         case '[':
             return check_array(v, p, it);
-- 
2.43.0


From c88780aa2286d3999decbed391c32679253199d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 25/62] fix: don't accept declarations with more than one
 declarator

---
 src/parse.cpp | 55 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index c4fd961..7351c1e 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -65,8 +65,9 @@ namespace /* anonymous */
     }
 
 
-    /* copy function parameters but don't mess up function pointer types */
-    void copy_parameters(const iter_t &it_beg, const iter_t &it_end, proto_t &proto)
+    /* copy function parameters but don't mess up function pointer types;
+     * returns false if the tokens are not a single parameter list */
+    bool copy_parameters(const iter_t &it_beg, const iter_t &it_end, proto_t &proto)
     {
         int scope = 0;
         vstring_t tokens;
@@ -79,7 +80,9 @@ namespace /* anonymous */
                 scope++;
                 break;
             case ')':
-                scope--;
+                if (--scope < 0) {
+                    return false;
+                }
                 break;
             case ',':
                 if (scope == 0) {
@@ -98,6 +101,8 @@ namespace /* anonymous */
         if (!tokens.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
+
+        return (scope == 0);
     }
 
 
@@ -166,9 +171,7 @@ namespace /* anonymous */
 
         /*  type (   symbol ) ( <..> )  */
         /*       ^ + 1      2 3 4       */
-        copy_parameters(it + 4, v.end() - 1, p);
-
-        return true;
+        return copy_parameters(it + 4, v.end() - 1, p);
     }
 
 
@@ -192,9 +195,7 @@ namespace /* anonymous */
 
         /*  type (   ** symbol ( <..>  )  )  */
         /*       ^ + n  1      2 3    -2 -1  */
-        copy_parameters(it + n + 3, v.end() - 2, p);
-
-        return true;
+        return copy_parameters(it + n + 3, v.end() - 2, p);
     }
 
 
@@ -208,9 +209,37 @@ namespace /* anonymous */
         p.prototype = proto::function;
         parse::append_strings(p.type, v.begin(), it - 1 /* symbol name */);
         p.symbol = *(it - 1);
-        copy_parameters(it + 1 /* first lparen */, v.end() - 1, p);
+        return copy_parameters(it + 1 /* first lparen */, v.end() - 1, p);
+    }
 
-        return true;
+
+    /* check for more than one declarator: TYPE SYMBOL , SYMBOL */
+    bool has_declarator_list(const vstring_t &v)
+    {
+        int scope = 0;
+
+        for (const auto &e : v) {
+            switch (utils::str_front(e))
+            {
+            case '(':
+            case '[':
+                scope++;
+                break;
+            case ')':
+            case ']':
+                scope--;
+                break;
+            case ',':
+                if (scope < 1) {
+                    return true;
+                }
+                break;
+            default:
+                break;
+            }
+        }
+
+        return false;
     }
 
 
@@ -227,6 +256,10 @@ namespace /* anonymous */
             return false;
         }
 
+        if (has_declarator_list(v)) {
+            return false;
+        }
+
         iter_t it = parse::find_first_not_pointer_or_ident(v);
 
         if (it == v.end()) {
-- 
2.43.0


From 084f71f43983b691193a546de918637d457a50f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 26/62] fix: don't accept a parameter list that ends on a comma

---
 src/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.cpp b/src/parse.cpp
index 7351c1e..e884198 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -100,6 +100,9 @@ namespace /* anonymous */
 
         if (!tokens.empty()) {
             proto.args_vec.push_back(std::move(tokens));
+        } else if (!proto.args_vec.empty()) {
+            /* list ends on a comma */
+            return false;
         }
 
         return (scope == 0);
-- 
2.43.0


From 210150d3a22214c7c5f40ad4dec437d5004ab2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 27/62] fix: report read errors on templates and don't touch
 the output then

---
 src/data.cpp      |  5 +++++
 src/gendlopen.cpp | 21 ++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index 5f0dc2c..a0e8162 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <stdio.h>
 #include <filesystem>
 #include <iostream>
 #include <ostream>
@@ -102,6 +103,10 @@ namespace /* anonymous */
             }
         }
 
+        if (::ferror(fp)) {
+            throw gendlopen::error("failed to read file: " + path);
+        }
+
         entry = { {}, 0, 0 };
         data.push_back(entry);
     }
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index c016447..2dbbb1f 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -178,6 +178,7 @@ void gendlopen::templates_path(const char *str)
 void gendlopen::process_custom_template()
 {
     template_t entry;
+    std::vector<template_t> lines;
     bool param_skip_code = false;
     bool rv = true;
 
@@ -188,9 +189,20 @@ void gendlopen::process_custom_template()
         throw error("failed to open file for reading: " + m_custom_template);
     }
 
+    FILE *fp = file.file_pointer();
+
+    /* read lines */
+    while (rv) {
+        rv = utils::get_lines(fp, entry);
+        lines.push_back(entry);
+    }
+
+    if (::ferror(fp)) {
+        throw error("failed to read file: " + m_custom_template);
+    }
+
     /* create output file */
     save::open_ofstream(m_output, m_force);
-    FILE *fp = file.file_pointer();
 
     /* write initial #line directive */
     if (m_line_directive) {
@@ -205,10 +217,9 @@ void gendlopen::process_custom_template()
     }
 
     /* parse lines */
-    while (rv) {
-        rv = utils::get_lines(fp, entry);
-        substitute_line(entry, param_skip_code);
-        m_substitute_lineno += entry.line_count;
+    for (const auto &e : lines) {
+        substitute_line(e, param_skip_code);
+        m_substitute_lineno += e.line_count;
     }
 
     save::close_ofstream(m_output);
-- 
2.43.0


From 06b079a10778e5015c0957a07cd0195f6c0d9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 28/62] fix: load all external templates before creating an
 output file

---
 src/data.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index a0e8162..b8e57b7 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -177,6 +177,10 @@ void gendlopen::create_template_lists(vtemplate_t &header, vtemplate_t &body)
         }
     };
 
+    /* load these before an output file is created, too */
+    load_template(t::file_license);
+    load_template(t::file_filename_macros);
+
     switch (m_format)
     {
     case output::c:
-- 
2.43.0


From d9b0773789ad1ec09dc89542f7f536b5eccdc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 29/62] fix: recognize %PARAM_SKIP_*% lines with Windows line
 endings

---
 src/substitute.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..6880de4 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -57,17 +57,20 @@ namespace /* anonymous */
             return false;
         }
 
-        ptr += len;
+        std::string keyword = ptr + len;
 
-        if (strcmp(ptr, "REMOVE_BEGIN%") == 0) {
+        /* remains of Windows line endings */
+        utils::delete_suffix(keyword, '\r');
+
+        if (keyword == "REMOVE_BEGIN%") {
             /* PARAM_SKIP_REMOVE_BEGIN */
             param_skip_code = (parameter_names == param::skip);
             return true;
-        } else if (strcmp(ptr, "USE_BEGIN%") == 0) {
+        } else if (keyword == "USE_BEGIN%") {
             /* PARAM_SKIP_USE_BEGIN */
             param_skip_code = (parameter_names != param::skip);
             return true;
-        } else if (strcmp(ptr, "END%") == 0) {
+        } else if (keyword == "END%") {
             /* PARAM_SKIP_END */
             param_skip_code = false;
             return true;
-- 
2.43.0


From c86098e7cc6c0a511e4f08be9eda982dc180dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 30/62] fix: replace adjacent instances of the standalone
 prefix in templates

---
 src/gendlopen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 2dbbb1f..438a0c9 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -132,7 +132,7 @@ void gendlopen::prefix(const char *str)
     /* set regex format string (used in substitute.cpp) */
     m_fmt_upper = "$1" + m_pfx_upper + '_';
     m_fmt_lower = "$1" + m_pfx_lower + '_';
-    m_fmt_standalone = "$1" + m_pfx_lower + "$3";
+    m_fmt_standalone = "$1" + m_pfx_lower;
 }
 
 
@@ -152,7 +152,9 @@ std::string gendlopen::replace_prefixes(const std::string &input)
     );
 
     const std::regex reg_standalone(
-        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(" NOT_IDENT "|" LINE_END ")"
+        /* lookahead: the next character may also be the separator
+         * in front of the next match */
+        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(?=" NOT_IDENT "|" LINE_END ")"
     );
 
     std::string buf;
-- 
2.43.0


From 2a4fd5c14df6f046ecd017ae2df423007ed7b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 31/62] fix: -line: correct line numbers behind empty loops and
 generated definitions

---
 src/generate.cpp   | 2 ++
 src/substitute.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 1c8bc65..7580be5 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -524,6 +524,8 @@ void gendlopen::generate()
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
     lines += save_data(templates::file_filename_macros, templates::ptr_filename_macros);
+
+    lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
diff --git a/src/substitute.cpp b/src/substitute.cpp
index 6880de4..cf3d9cf 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -272,13 +272,13 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
         if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+            /* number of the next template line */
+            save::ofs << "#line " << (m_substitute_lineno + line.line_count) << '\n';
+            return 1; /* 1 line */
         }
 
-        return entry_lines;
+        return 0; /* no line */
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From 5e25d3fc265e0704252fa852a6530507312a556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 32/62] fix: escape file names in #line directives

---
 src/gendlopen.cpp |  2 +-
 src/generate.cpp  |  2 +-
 src/utils.cpp     | 15 +++++++++++++++
 src/utils.hpp     |  3 +++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 438a0c9..e2380ba 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -211,7 +211,7 @@ void gendlopen::process_custom_template()
         if (fp == stdin) {
             save::ofs << "#line 1 \"<STDIN>\"\n";
         } else {
-            save::ofs << "#line 1 \"" << m_custom_template << "\"\n";
+            save::ofs << "#line 1 \"" << utils::escape(m_custom_template) << "\"\n";
         }
 
         /* count the "#line" directive */
diff --git a/src/generate.cpp b/src/generate.cpp
index 7580be5..ef18ace 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -389,7 +389,7 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
     /* +1 to count the "#line" directive itself and
      * +1 to print the number of the next line */
-    save::ofs << "#line " << (lines + 2) << " \"" << header_name << "\"\n";
+    save::ofs << "#line " << (lines + 2) << " \"" << utils::escape(header_name) << "\"\n";
 
     return 1;
 }
diff --git a/src/utils.cpp b/src/utils.cpp
index 8bdc3c8..1fa7f91 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -152,6 +152,21 @@ void utils::replace(const std::string &from, const std::string &to, std::string
     }
 }
 
+/* escape characters for use in a string literal */
+std::string utils::escape(const std::string &str)
+{
+    std::string out;
+
+    for (const char &c : str) {
+        if (c == '"' || c == '\\') {
+            out += '\\';
+        }
+        out += c;
+    }
+
+    return out;
+}
+
 /* count '\n' characters */
 size_t utils::count_linefeed(const std::string &str)
 {
diff --git a/src/utils.hpp b/src/utils.hpp
index 371d315..dc0f837 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -104,6 +104,9 @@ void strip_spaces(std::string &s);
 void replace(const std::string &from, const std::string &to, std::string &s);
 
 
+/* escape characters for use in a string literal */
+std::string escape(const std::string &str);
+
 /* count '\n' characters */
 size_t count_linefeed(const std::string &str);
 
-- 
2.43.0


From edd5e47c4a3b61156c3253083c84f588984c02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 33/62] fix: declare getline() in strict ISO C mode

---
 src/templates/common.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/templates/common.c b/src/templates/common.c
index 183b56d..bd3afdf 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -102,6 +102,13 @@ GDO_INLINE const char *_gdo_aix_parse_ldinfo(struct ld_info *info, uint8_t *sym,
 #include <string.h>
 #include <linux/fs.h>
 
+/* getline(3) is not declared in strict ISO C mode */
+#if !defined(__cplusplus) && \
+    (!defined(_POSIX_C_SOURCE) || _POSIX_C_SOURCE < 200809L)
+# include <sys/types.h>
+extern ssize_t getline(char **lineptr, size_t *n, FILE *stream);
+#endif
+
 #ifdef PROCMAP_QUERY
 # include <fcntl.h>
 # include <sys/ioctl.h>
-- 
2.43.0


From ae495d6b44027158a9ec75dd9afda4fc33d0b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 34/62] fix: declare strdup() in strict ISO C mode (plugin
 loader)

---
 src/templates/plugin.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index 449afa7..baefe47 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -23,6 +23,12 @@
 # define GDO_STRDUP       strdup
 #endif
 
+/* strdup(3) is not declared in strict ISO C mode */
+#if !defined(_WIN32) && !defined(__cplusplus) && \
+    (!defined(_POSIX_C_SOURCE) || _POSIX_C_SOURCE < 200809L)
+extern char *strdup(const char *s);
+#endif
+
 
 /* load list of plugins */
 GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
-- 
2.43.0


From 0fedd15f7bcaacffcc1999365fe4c9539f59d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 35/62] fix: C++ library_path(): don't leave the dlinfo() error
 behind when dladdr() succeeds

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index bd8ade5..bff0be9 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -478,6 +478,8 @@ bool gdo::dl::get_library_path_dladdr(void)
     /* use dladdr() to get the library path from a symbol pointer */
     Dl_info info;
 
+    clear_error();
+
     if (no_symbols_loaded()) {
         m_errmsg = "no symbols were loaded";
         return false;
-- 
2.43.0


From 86b2739be4864b8506ff2c6e10d664408078ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 36/62] fix: set an error message if the library path doesn't
 fit the buffer

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index 7d0ed6d..d080bd1 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -819,6 +819,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -858,6 +859,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From e1d91ba4005f49d439e914a19442d7a0e7dc7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 37/62] fix: find the full path of libraries that weren't
 linked to address zero

---
 src/templates/common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index bd3afdf..6203bb3 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -132,7 +132,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
 
         q.size          = sizeof(struct procmap_query);
         q.query_flags   = PROCMAP_QUERY_FILE_BACKED_VMA;
-        q.query_addr    = (__u64)lm->l_addr;  /* find this address */
+        q.query_addr    = (__u64)(uintptr_t)lm->l_ld;  /* find this address */
         q.vma_name_size = bufsize;     /* in: buffer size; out: saved path length + NUL byte */
         q.vma_name_addr = (__u64)buf;  /* buffer to save pathname */
 
@@ -156,6 +156,10 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
         return false;
     }
 
+    /* l_addr is only a difference and lies outside of the mapping
+     * if the library wasn't linked to address zero */
+    const uintmax_t addr = (uintptr_t)lm->l_ld;
+
     uintmax_t start, end;
     char mode[5];
     char *line = NULL, *path = NULL;
@@ -167,7 +171,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
         int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
-        if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
+        if (rv == 4 && addr >= start && addr < end) {
             /* match */
             break;
         }
-- 
2.43.0


From e13c6cc1fdc89d3a873586817793ce2d7260262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 38/62] fix: minimal format: GDO_STATIC didn't compile with
 clang

---
 src/templates/minimal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 6c5b8d4..9993eb5 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -6,9 +6,11 @@
 #endif
 
 #ifdef GDO_STATIC
-# define GDO_LINKAGE  static inline
+# define GDO_LINKAGE   static inline
+# define GDO_OBJ_DECL  static
 #else
-# define GDO_LINKAGE  /**/
+# define GDO_LINKAGE   /**/
+# define GDO_OBJ_DECL  /**/
 #endif
 
 
@@ -29,7 +31,7 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+GDO_OBJ_DECL gdo_handle_t gdo_hndl;
 
 
 /**
-- 
2.43.0


From b519de8328fc467c235cbf39b53320c58826ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 39/62] fix: escape quotes and backslashes in the default
 library name

-library=NAME puts NAME into a string literal; a name containing a quote
or a backslash yielded a broken or a different literal.
---
 src/generate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index ef18ace..e15c625 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -125,7 +125,7 @@ std::string quote_lib(const std::string &lib, bool wide)
             return 'L' + lib;
         }
 
-        return "L\"" + lib + '"';
+        return "L\"" + utils::escape(lib) + '"';
     }
 
     if (lib.size() >= 2 && utils::front_and_back(lib, '"', '"')) {
@@ -133,7 +133,7 @@ std::string quote_lib(const std::string &lib, bool wide)
         return lib;
     }
 
-    return '"' + lib + '"';
+    return '"' + utils::escape(lib) + '"';
 }
 
 
-- 
2.43.0


From 4a968e765e4ba2d2ae4f6e76b101d1df4ebcf60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 40/62] fix: C++ output with the prefixes "dl" and "wrap" did
 not compile

The namespace then has the name of a class or namespace inside it, so that
names qualified with it were looked up in the wrong scope.
---
 src/templates/cxx.cpp | 4 ++--
 src/templates/cxx.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index bff0be9..3a2803c 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -30,7 +30,7 @@ void gdo::dl::default_message_callback(const char *msg)
 }
 
 /* save callback function pointer */
-gdo::dl::msgcb_t gdo::dl::m_message_callback = gdo::dl::default_message_callback;
+gdo::dl::msgcb_t gdo::dl::m_message_callback = default_message_callback;
 
 #endif // GDO_WRAP_FUNCTIONS || GDO_ENABLE_AUTOLOAD
 
@@ -858,7 +858,7 @@ bool gdo::dl::free_lib_in_dtor() const
 #if defined(GDO_WRAP_FUNCTIONS) || defined(GDO_ENABLE_AUTOLOAD)
 
 /* Set a message callback function. */
-void gdo::dl::message_callback(gdo::dl::msgcb_t cb)
+void gdo::dl::message_callback(msgcb_t cb)
 {
     m_message_callback = cb;
 }
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 3c02fff..f53f41e 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -424,8 +424,8 @@ public:
 /**
  * Prefixed aliases, useful if GDO_DISABLE_ALIASING was defined.
  */
-#define GDO_RAWPTR_%%func_symbol_pad%% gdo::GDO_PTR_%%func_symbol%%
-#define GDO_RAWPTR_%%obj_symbol_pad%% gdo::GDO_PTR_%%obj_symbol%%
+#define GDO_RAWPTR_%%func_symbol_pad%% ::gdo::GDO_PTR_%%func_symbol%%
+#define GDO_RAWPTR_%%obj_symbol_pad%% ::gdo::GDO_PTR_%%obj_symbol%%
 %PARAM_SKIP_REMOVE_BEGIN%
 
 
@@ -462,7 +462,7 @@ namespace gdo {
     template<typename... Types>@
     %%type%% GDO_WRAP(%%func_symbol%%) (Types... args) {@
         if (!GDO_RAWPTR_%%func_symbol%%) {@
-            gdo::wrap::not_loaded(GDO_LOAD_%%func_symbol%%, "%%func_symbol%%");@
+            ::gdo::wrap::not_loaded(GDO_LOAD_%%func_symbol%%, "%%func_symbol%%");@
         }@
         GDO_HOOK_%%func_symbol%%(args...);@
         %%return%% GDO_RAWPTR_%%func_symbol%%(args...);@
@@ -471,7 +471,7 @@ namespace gdo {
     GDO_WRAP_DECL@
     %%type%% GDO_WRAP(%%func_symbol%%) (%%args%%) {@
         if (!GDO_RAWPTR_%%func_symbol%%) {@
-            gdo::wrap::not_loaded(GDO_LOAD_%%func_symbol%%, "%%func_symbol%%");@
+            ::gdo::wrap::not_loaded(GDO_LOAD_%%func_symbol%%, "%%func_symbol%%");@
         }@
         GDO_HOOK_%%func_symbol%%(%%param_names%%);@
         %%return%% GDO_RAWPTR_%%func_symbol%%(%%param_names%%);@
-- 
2.43.0


From 8018143ea3c2c3ae1db4cc476319da49e0736c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 41/62] fix: GDO_STATIC with wrapped variadic functions gave
 warnings with gcc

---
 src/templates/c.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.h b/src/templates/c.h
index ff99f12..6fb81bc 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -212,6 +212,13 @@ extern void _gdo_noop(void);
 # endif
 #endif
 
+/* an external inline function must not use static functions or objects */
+#ifdef GDO_STATIC
+# define _GDO_WRAP_VA_DECL  static inline __attribute__ ((__always_inline__))
+#else
+# define _GDO_WRAP_VA_DECL  extern inline __attribute__ ((__gnu_inline__))
+#endif
+
 
 /* diagnostic warnings on variable arguments functions */
 #if !defined(GDO_DISABLE_WARNINGS)
@@ -240,14 +247,15 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
  * __builtin_va_arg_pack() is a GNU extension and will be resolved to the
  * additional parameters provided by the `...' argument.
  * This requires function inlining optimizations to be enabled.
- * The function HAS to be declared `extern inline __attribute__ ((__gnu_inline__))'.
+ * The function HAS to be declared `extern inline __attribute__ ((__gnu_inline__))'
+ * or with `__attribute__ ((__always_inline__))'.
  */
 @
 /* %%func_symbol%%() */@
 #ifdef GDO_HAS_VA_ARGS_%%func_symbol%%@
 # ifdef GDO_BUILTIN_VA_ARG_PACK@
     /* inline function (always inlined) */@
-    extern inline __attribute__ ((__gnu_inline__))@
+    _GDO_WRAP_VA_DECL@
     %%type%% GDO_WRAP(%%func_symbol%%) (%%args%%) {@
         _GDO_WRAP_CHECK_LOADED( %%func_symbol%% );@
         GDO_HOOK_%%func_symbol%%( %%param_names%%, __builtin_va_arg_pack() );@
-- 
2.43.0


From 785d92bbdcdb06fba0a3525596378caea12576da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 42/62] fix: unused function warnings of clang for separate
 body files

---
 src/templates/common.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/templates/common.h b/src/templates/common.h
index 1c892c7..9779bfd 100644
--- a/src/templates/common.h
+++ b/src/templates/common.h
@@ -107,7 +107,12 @@ typedef void *gdo_hmod_t;
 #endif
 
 
-#define GDO_INLINE  static inline
+#ifdef __GNUC__
+/* not every function is used on every platform and in every format */
+# define GDO_INLINE  static inline __attribute__ ((__unused__))
+#else
+# define GDO_INLINE  static inline
+#endif
 
 
 #ifdef _WIN32
-- 
2.43.0


From ac3f6f2f811a4d40a67d6d0729f39644f5f6066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 43/62] fix: AST input: name parameters of pointer-to-pointer,
 qualified and nested function pointer types

`void (**)(int)' and `void (*const)(int)' became `void (**)(int) a1', and
the name of `int (*(*)(int))(char)' is now found from its first parenthesis on.
---
 src/clang_ast.cpp |  5 +----
 src/utils.cpp     | 32 ++++++++++++++++++++++++++++++++
 src/utils.hpp     |  7 +++++++
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 2ba98f4..f5f3458 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -143,7 +143,6 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     const std::string needle = "-ParmVarDecl 0x";
     const std::string line = strip_line(lex::text());
     std::string type;
-    size_t pos;
 
     /* "| |-", "| `-", "  |-" or "  `-" */
     if (line.find(needle) != 3 || !get_type(line, 3 + needle.size(), type, NULL)) {
@@ -155,9 +154,7 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(type, "(*)", pos)) {
-        /* function pointer */
-        type.insert(pos + 2, name);
+    if (utils::insert_name(type, name)) {
         args += type + ", ";
     } else {
         /* regular parameter */
diff --git a/src/utils.cpp b/src/utils.cpp
index 1fa7f91..f5bbdb6 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -112,6 +112,38 @@ std::string utils::to_lower(const std::string &str, bool underscores)
     return out;
 }
 
+/* insert a name into the parenthesized declarator of a type */
+bool utils::insert_name(std::string &type, const std::string &name)
+{
+    size_t pos;
+
+    if (!find(type, "(*", pos)) {
+        return false;
+    }
+
+    while (true) {
+        /* skip opening parenthesis, pointers and qualifiers */
+        pos = type.find_first_of("()[", pos + 1);
+
+        if (pos == std::string::npos) {
+            return false;
+        }
+
+        if (type.at(pos) != '(') {
+            break;
+        } else if (str_at(type, pos + 1) != '*') {
+            return false;
+        }
+    }
+
+    const char c = type.at(pos - 1);
+
+    type.insert(pos, (c == '*' || c == ' ') ? name : ' ' + name);
+
+    return true;
+}
+
+
 /* returns true if s begins with a prefix found in list */
 bool utils::is_prefixed(const std::string &s, const vstring_t &list)
 {
diff --git a/src/utils.hpp b/src/utils.hpp
index dc0f837..cb6f188 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -92,6 +92,13 @@ std::string to_upper(const std::string &s, bool underscores=true);
 std::string to_lower(const std::string &s, bool underscores=true);
 
 
+/* insert a name into the parenthesized declarator of a type, i.e. a pointer to
+ * a function or array: `void (*)(int)' -> `void (*NAME)(int)'
+ *
+ * returns false if the type has none */
+bool insert_name(std::string &type, const std::string &name);
+
+
 /* returns true if s begins with a prefix found in list */
 bool is_prefixed(const std::string &s, const vstring_t &list);
 
-- 
2.43.0


From d236a8d62200c9ab67212531cd601196024f5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 44/62] fix: AST input: reject functions that return a pointer
 to a function or array

The type was cut off at its first parenthesis: `void (*f(int))(char)' became
`void f(int)'. The same declaration is rejected on text input, too.
---
 src/clang_ast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index f5f3458..46aa101 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -267,6 +267,11 @@ int gendlopen::get_declarations(filter::mode mode)
             return 0;
         }
 
+        /* function that returns a pointer to a function or array */
+        if (utils::str_at(type, pos + 1) == '*') {
+            throw error("Clang AST: unsupported type of function `" + proto.symbol + "': " + type);
+        }
+
         proto.prototype = proto::function;
 
         proto.type = type.substr(0, pos);
-- 
2.43.0


From 2313209db151299d3086626c56639ae0f95ca615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 45/62] fix: AST input: create typedefs for objects of every
 pointer to function or array type

`void (**x)(int)' and `void (*const x)(int)' were written as
`void (**)(int) x' and so on, which is no valid C.
---
 src/clang_ast.cpp | 2 +-
 src/tokenize.cpp  | 9 +--------
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 46aa101..d38c2f3 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -299,7 +299,7 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(type, "(*)")) {
+        if (utils::find(type, "(*")) {
             proto.prototype = proto::function_pointer;
         } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..5903d0c 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -176,16 +176,9 @@ namespace /* anonymous */
     /* 'void (*)()'  ==>  'void (*name)()' */
     std::string fptr_typedef(const std::string &type, const std::string &name)
     {
-        size_t pos;
-
-        if (!utils::find(type, "(*)", pos) || type.find('(') != pos) {
-            return {};
-        }
-
         std::string s = type;
-        pos += 2; /* insert after '*' */
 
-        return s.insert(pos, name);
+        return utils::insert_name(s, name) ? s : std::string();
     }
 
 
-- 
2.43.0


From cfa6fdac92bbc19d929a8e538cf0c88a337803bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 46/62] fix: AST input: functions declared with a typedef'd
 function type were lost

`typedef int fn_t(int); fn_t foo;' has the type 'fn_t':'int (int)'. The
symbol was dropped, even without a message if it was requested with -S.
---
 src/clang_ast.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index d38c2f3..dad66c1 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -101,8 +101,10 @@ std::string strip_line(const char *line)
 /* get the first quoted type from a line (beginning at "pos")
  *
  * if "symbol" is not NULL it will be set to the
- * symbol name that must precede the type */
-bool get_type(const std::string &line, size_t pos, std::string &type, std::string *symbol)
+ * symbol name that must precede the type
+ *
+ * desugar: prefer the underlying type in 'typedef_name':'type' */
+bool get_type(const std::string &line, size_t pos, std::string &type, std::string *symbol, bool desugar)
 {
     const char *identifier =
         "abcdefghijklmnopqrstuvwxyz"
@@ -130,6 +132,16 @@ bool get_type(const std::string &line, size_t pos, std::string &type, std::strin
         }
 
         type = line.substr(begin, end - begin);
+
+        if (desugar && line.compare(end, 3, "':'") == 0) {
+            const size_t begin2 = end + 3;
+            const size_t end2 = line.find('\'', begin2);
+
+            if (end2 != std::string::npos) {
+                type = line.substr(begin2, end2 - begin2);
+            }
+        }
+
         return true;
     }
 
@@ -145,7 +157,7 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     std::string type;
 
     /* "| |-", "| `-", "  |-" or "  `-" */
-    if (line.find(needle) != 3 || !get_type(line, 3 + needle.size(), type, NULL)) {
+    if (line.find(needle) != 3 || !get_type(line, 3 + needle.size(), type, NULL, false)) {
         return false;
     }
 
@@ -208,7 +220,7 @@ int gendlopen::get_declarations(filter::mode mode)
     const std::string needle = is_function ? "-FunctionDecl 0x" : "-VarDecl 0x";
 
     /* "|-" or "`-" */
-    if (line.find(needle) != 1 || !get_type(line, 1 + needle.size(), type, &symbol)) {
+    if (line.find(needle) != 1 || !get_type(line, 1 + needle.size(), type, &symbol, is_function)) {
         return 0;
     }
 
-- 
2.43.0


From a8fc148a7d01dc83137f7041bad47a318d9d29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 47/62] fix: AST input: reject declarations with an unnamed
 struct, union or enum type

The type was written as `struct (unnamed struct at file.h:1:1)'.
---
 src/clang_ast.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index dad66c1..41a2a02 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -270,6 +270,10 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
     }
 
+    if (utils::find(type, "(unnamed ") || utils::find(type, "(anonymous ")) {
+        throw error("Clang AST: unnamed type in declaration of `" + proto.symbol + "': " + type);
+    }
+
     if (is_function) {
         /* function declaration */
         size_t pos;
-- 
2.43.0


From 36fc1f43b7990f062b48b1345d9281ec3c67e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 48/62] fix: declarations with unbalanced brackets were
 accepted

`int x[3]];', `int f(int a[[3]);', `int (*f)((int);'
---
 src/parse.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index e884198..86c2dd7 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -246,6 +246,66 @@ namespace /* anonymous */
     }
 
 
+    /* get the closing bracket to the opening bracket at "it" (v.end() if there's none) */
+    iter_t find_closing_bracket(vstring_t &v, iter_t it)
+    {
+        std::string scope;
+
+        for ( ; it != v.end(); it++) {
+            const char c = utils::str_front(*it);
+
+            switch (c)
+            {
+            case '(':
+                scope += ')';
+                break;
+            case '[':
+                scope += ']';
+                break;
+            case ')':
+            case ']':
+                if (scope.empty() || scope.back() != c) {
+                    return v.end();
+                }
+                scope.pop_back();
+
+                if (scope.empty()) {
+                    return it;
+                }
+                break;
+            default:
+                break;
+            }
+        }
+
+        return v.end();
+    }
+
+
+    /* check if every bracket has a counterpart */
+    bool brackets_match(vstring_t &v)
+    {
+        for (iter_t it = v.begin(); it != v.end(); it++) {
+            switch (utils::str_front(*it))
+            {
+            case '(':
+            case '[':
+                if ((it = find_closing_bracket(v, it)) == v.end()) {
+                    return false;
+                }
+                break;
+            case ')':
+            case ']':
+                return false;
+            default:
+                break;
+            }
+        }
+
+        return true;
+    }
+
+
     /* check and parse tokens, save prototype */
     bool check_prototype(vstring_t &v, proto_t &p)
     {
@@ -259,7 +319,7 @@ namespace /* anonymous */
             return false;
         }
 
-        if (has_declarator_list(v)) {
+        if (!brackets_match(v) || has_declarator_list(v)) {
             return false;
         }
 
-- 
2.43.0


From 17d2773d8eeb92b3468743dc94fa15f5627a5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 49/62] fix: text behind the parameter list of a function
 pointer became part of its type

`int (*f)(int) ATTRIBUTE(x);' is now rejected like it is for functions.
---
 src/parse.cpp | 77 +++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 86c2dd7..c1a898a 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -140,6 +140,42 @@ namespace /* anonymous */
     }
 
 
+    /* get the closing bracket to the opening bracket at "it" (v.end() if there's none) */
+    iter_t find_closing_bracket(vstring_t &v, iter_t it)
+    {
+        std::string scope;
+
+        for ( ; it != v.end(); it++) {
+            const char c = utils::str_front(*it);
+
+            switch (c)
+            {
+            case '(':
+                scope += ')';
+                break;
+            case '[':
+                scope += ']';
+                break;
+            case ')':
+            case ']':
+                if (scope.empty() || scope.back() != c) {
+                    return v.end();
+                }
+                scope.pop_back();
+
+                if (scope.empty()) {
+                    return it;
+                }
+                break;
+            default:
+                break;
+            }
+        }
+
+        return v.end();
+    }
+
+
     /* TYPE ( * SYMBOL ) ( ) */
     bool check_function_pointer(vstring_t &v, proto_t &p, iter_t &it)
     {
@@ -147,6 +183,11 @@ namespace /* anonymous */
             return false;
         }
 
+        /* nothing may follow the parameter list */
+        if (find_closing_bracket(v, it + 4) != v.end() - 1) {
+            return false;
+        }
+
         p.prototype = proto::function_pointer;
 
         /*  type (   * symbol ) ( )  */
@@ -246,42 +287,6 @@ namespace /* anonymous */
     }
 
 
-    /* get the closing bracket to the opening bracket at "it" (v.end() if there's none) */
-    iter_t find_closing_bracket(vstring_t &v, iter_t it)
-    {
-        std::string scope;
-
-        for ( ; it != v.end(); it++) {
-            const char c = utils::str_front(*it);
-
-            switch (c)
-            {
-            case '(':
-                scope += ')';
-                break;
-            case '[':
-                scope += ']';
-                break;
-            case ')':
-            case ']':
-                if (scope.empty() || scope.back() != c) {
-                    return v.end();
-                }
-                scope.pop_back();
-
-                if (scope.empty()) {
-                    return it;
-                }
-                break;
-            default:
-                break;
-            }
-        }
-
-        return v.end();
-    }
-
-
     /* check if every bracket has a counterpart */
     bool brackets_match(vstring_t &v)
     {
-- 
2.43.0


From 3f2c88ec89c26714355dad27af7c0e3a45a394c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 50/62] fix: plugin loader used memory it could not allocate

---
 src/templates/plugin.c | 10 ++++++++++
 src/templates/plugin.h |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index baefe47..eb61180 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -39,9 +39,19 @@ GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
 
     /* allocate struct */
     gdo_plugin_t *plug = (gdo_plugin_t *)malloc(sizeof(gdo_plugin_t));
+
+    if (!plug) {
+        return NULL;
+    }
+
     plug->num = num;
     plug->list = (gdo_handle_t *)calloc(num, sizeof(gdo_handle_t));
 
+    if (!plug->list) {
+        free(plug);
+        return NULL;
+    }
+
     for (size_t i = 0; i < num; i++) {
         if (!files[i] || *files[i] == 0) {
             /* empty filename */
diff --git a/src/templates/plugin.h b/src/templates/plugin.h
index 86a9531..8ce12fa 100644
--- a/src/templates/plugin.h
+++ b/src/templates/plugin.h
@@ -59,7 +59,8 @@ typedef struct _gdo_plugin
  *
  * To ensure loading was successful you must check the library handle and function
  * pointers of each entry of the returned `gdo_plugin.list' array.
- * If `files' is NULL or `num' is 0 a NULL pointer is returned.
+ * If `files' is NULL or `num' is 0 or if there was not enough memory a NULL pointer
+ * is returned.
  */
 GDO_DECL gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
     GDO_GCC_ATTRIBUTE (warn_unused_result);
-- 
2.43.0


From d019fac3ccfc134a17d8bc97d1e09babf03381f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 51/62] fix: converted strings contained their null terminator
 (C++ API, Windows)

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 3a2803c..9504a69 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -129,6 +129,8 @@ bool gdo::dl::convert_string(const std::basic_string<T_in> &str_in, std::basic_s
 
         /* convert string */
         if (mbs_wcs_conv(&n, buf, len, str_in.c_str()) && n == len) {
+            /* don't count the null terminator */
+            str_out.resize(len - 1);
             return true;
         }
     }
-- 
2.43.0


From 55cf952bfc0e3eb00882aaea281dc6e0b5fb9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 52/62] fix: conversion failure was reported with an unrelated
 error code (C API, Windows)

---
 src/templates/c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index d080bd1..19d1f80 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -228,7 +228,10 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
     _gdo_load_library(filename, flags, new_namespace);
 
     if (!gdo_lib_is_loaded()) {
-        _gdo_save_error(filename);
+        /* keep the message if the filename could not be converted */
+        if (gdo_hndl.errbuf[0] == 0) {
+            _gdo_save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From ee0617133d262bde434c617d420cc9983b44b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 53/62] fix: conversion failure was reported with an unrelated
 error code (C++ API, Windows)

---
 src/templates/cxx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 9504a69..ce17eca 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -538,7 +538,10 @@ bool gdo::dl::load_filename(const T &filename)
     load_lib(filename);
 
     if (!lib_loaded()) {
-        save_error(filename);
+        /* keep the message if the filename could not be converted */
+        if (m_errmsg.empty()) {
+            save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From 38c7549c8b3ddb8a86bf85ccbce5ad4d3d11e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 54/62] fix: library path of a library that another object
 freed or replaced (C++ API, Windows)

---
 src/templates/cxx.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index ce17eca..fb69f4c 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -258,10 +258,9 @@ void gdo::dl::get_library_path(std::basic_string<T> &path)
 {
     clear_error();
 
-    /* was the library path already saved? */
-    if (!path.empty()) {
-        return;
-    }
+    /* the handle is shared between all objects, so a path that was saved
+     * earlier may belong to another library */
+    path.clear();
 
     if (!lib_loaded()) {
         set_error_invalid_handle();
-- 
2.43.0


From ad3c50e704c452f20cb4be976a180c9f28b9044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 55/62] fix: unchecked allocations while loading a library (C
 API, Windows)

---
 src/templates/c.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index 19d1f80..59441f3 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -255,6 +255,11 @@ GDO_INLINE void _gdo_load_library(const gdo_char_t *filename, int flags, bool ne
     /* copy filename and replace path separators */
     gdo_char_t *copy = _tcsdup(filename);
 
+    if (!copy) {
+        SetLastError(ERROR_NOT_ENOUGH_MEMORY);
+        return;
+    }
+
     for (gdo_char_t *p = copy; *p != 0; p++) {
         if (*p == _T('/')) {
             *p = _T('\\');
@@ -284,6 +289,10 @@ GDO_INLINE wchar_t *_gdo_mbstowcs(const char *filename)
     if (mbstowcs_s(&len, NULL, 0, filename, _TRUNCATE) == 0 && len > 1) {
         wcs = (wchar_t *)malloc(len * sizeof(wchar_t));
 
+        if (!wcs) {
+            return NULL;
+        }
+
         /* convert string */
         if (mbstowcs_s(&n, wcs, len, filename, _TRUNCATE) == 0 && n == len) {
             return wcs;
-- 
2.43.0


From 121d14142fa3d1346f57fa01aae5545e6893eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 56/62] fix: auto-loading with a wide character library name
 (C++ API, Windows)

---
 src/templates/cxx.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index fb69f4c..39c7210 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1039,11 +1039,14 @@ namespace gdo
 
             std::string msg = _loader.error();
 
-            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
+            /* GDO_DEFAULT_LIB may be a wide character string */
+            const std::string lib = _loader.filename();
+
+            if (msg.find(lib) != std::string::npos) {
                 /* library name is already part of error message */
                 sstr << "error: " << sym << ": " << msg;
             } else {
-                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
+                sstr << "error: " << lib << ": " << sym << ": " << msg;
             }
 
             msg_callback(sstr.str().c_str());
-- 
2.43.0


From 84b011ab204ef9b1875bb8d5a8ce3da3f837182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 57/62] fix: character types if GDO_USE_DLOPEN and _UNICODE are
 both defined (C API, Windows)

---
 src/templates/c.c               | 26 +++++++++++++++-----------
 src/templates/c.h               |  2 +-
 src/templates/filename_macros.h |  2 +-
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 59441f3..7fb74ba 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -61,7 +61,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void);
 /* strstr() / wcsstr() */
 GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_char_t *needle)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
     return _tcsstr(haystack, needle);
 #else
     return strstr(haystack, needle);
@@ -70,7 +70,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 
 
 /* snprintf() / snwprintf() */
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # define GDO_SNPRINTF(DEST, FORMAT, ...) \
     _sntprintf_s(DEST, _countof(DEST), _TRUNCATE, FORMAT, __VA_ARGS__)
 #else
@@ -900,24 +900,28 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *lib
     /* the library name may contain "%" */
     const gdo_char_t *fmt = _T("%s%s%s: %s");
 
-#ifdef _WIN32
+#if defined(_WIN32) && defined(GDO_USE_MESSAGE_BOX)
+
+    gdo_char_t buf[GDO_BUFLEN];
+    GDO_SNPRINTF(buf, fmt, prefix, lib, sym, msg);
 
-# ifdef GDO_USE_MESSAGE_BOX
-    /* we can safely use gdo_hndl.errbuf, the last error message
-     * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, prefix, lib, sym, msg);
-    MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
+# ifdef GDO_WINAPI
+    MessageBox(NULL, buf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
+    MessageBoxA(NULL, buf, "Error", MB_OK | MB_ICONERROR);
+# endif
+
+#elif defined(GDO_WINAPI)
+
     _ftprintf_s(stderr, fmt, prefix, lib, sym, msg);
     _fputtc(_T('\n'), stderr);
-# endif //GDO_USE_MESSAGE_BOX
 
-#else //!_WIN32
+#else
 
     fprintf(stderr, fmt, prefix, lib, sym, msg);
     fputc('\n', stderr);
 
-#endif //!_WIN32
+#endif
 }
 
 /* used by wrapper functions */
diff --git a/src/templates/c.h b/src/templates/c.h
index 6fb81bc..c804867 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -2,7 +2,7 @@
 /*                                   C API                                   */
 /*****************************************************************************/
 
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # include <tchar.h>
 #else
 # undef _T
diff --git a/src/templates/filename_macros.h b/src/templates/filename_macros.h
index 0b9b436..63e9c91 100644
--- a/src/templates/filename_macros.h
+++ b/src/templates/filename_macros.h
@@ -81,7 +81,7 @@ GDO_LIBEXTW
 /* wide/narrow character default macros */
 #undef GDO_LIBEXT
 #undef GDO_LIBNAME
-#if defined(_WIN32) && defined(_UNICODE)
+#if defined(_WIN32) && defined(_UNICODE) && !defined(GDO_USE_DLOPEN)
 # define GDO_LIBEXT              GDO_LIBEXTW
 # define GDO_LIBNAME(NAME, API)  GDO_LIBNAMEW(NAME, API)
 #else
-- 
2.43.0


From a490f325d7d0106f6042005b516b21312c713b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 58/62] fix: FreeLibrary() may return any nonzero value on
 success

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 6203bb3..ed8d6d2 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -13,7 +13,7 @@ GDO_INLINE void *_gdo_call_dlsym(gdo_hmod_t handle, const char *symbol)
 GDO_INLINE bool _gdo_call_dlclose(gdo_hmod_t handle)
 {
 #ifdef GDO_WINAPI
-    return (FreeLibrary(handle) == TRUE);
+    return (FreeLibrary(handle) != 0);
 #else
     return (dlclose(handle) == 0);
 #endif
-- 
2.43.0


From 73e855ee7f9ac4eae9e51c5adacf4ab0a437aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 59/62] fix: failed symbol lookup did not name the symbol (C++
 API, Windows)

---
 src/templates/cxx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 39c7210..7f0ea6d 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -509,7 +509,7 @@ T gdo::dl::sym_load(const char *symbol)
     T ptr = reinterpret_cast<T>(_gdo_call_dlsym(m_handle, symbol));
 
     if (!ptr) {
-        save_error();
+        save_error(symbol);
     }
 
     return ptr;
-- 
2.43.0


From a0d4d5ad6d1c0b04bcccb3452fc538bc190d4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 60/62] fix: wrapped functions couldn't be linked from more
 than one source file in GNU C90 mode

---
 src/templates/c.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.h b/src/templates/c.h
index c804867..c35def1 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -189,7 +189,7 @@ GDO_DECL const gdo_char_t *gdo_library_path(void);
 
 /* we need an actual function for the VA_ARGS macro */
 #ifdef __GNUC__
-inline __attribute__ ((always_inline)) void _gdo_noop(void) {}
+extern inline __attribute__ ((__gnu_inline__, __always_inline__)) void _gdo_noop(void) {}
 #elif defined(_MSC_VER)
 __forceinline void _gdo_noop(void) {}
 #else
-- 
2.43.0


From e4d7cbed27e9834e4a8d036fc02931f572e5b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 61/62] fix: GDO_STATIC wrappers couldn't be used in more than
 one source file on compilers that aren't GCC-like

---
 src/templates/c.c | 2 +-
 src/templates/c.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 7fb74ba..fc9fdc7 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -892,7 +892,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 #if defined(GDO_WRAP_FUNCTIONS) || defined(GDO_ENABLE_AUTOLOAD)
 
 #if !defined(__GNUC__) && !defined(_MSC_VER)
-void _gdo_noop(void) {}
+GDO_LINKAGE void _gdo_noop(void) {}
 #endif
 
 GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *lib, const gdo_char_t *sym, const gdo_char_t *msg)
diff --git a/src/templates/c.h b/src/templates/c.h
index c35def1..95ba298 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -193,7 +193,7 @@ extern inline __attribute__ ((__gnu_inline__, __always_inline__)) void _gdo_noop
 #elif defined(_MSC_VER)
 __forceinline void _gdo_noop(void) {}
 #else
-extern void _gdo_noop(void);
+GDO_DECL void _gdo_noop(void);
 #endif
 
 
-- 
2.43.0


From ebe27d3fdeefebbcd569b2020baf024e57cc2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 62/62] fix: dladdr(), dlinfo() and dlmopen() were declared
 without C linkage in C++

---
 src/templates/common.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/templates/common.h b/src/templates/common.h
index 9779bfd..4692433 100644
--- a/src/templates/common.h
+++ b/src/templates/common.h
@@ -137,6 +137,14 @@ typedef void *gdo_hmod_t;
 #endif
 
 
+/* linkage of the C library functions declared below */
+#ifdef __cplusplus
+# define _GDO_EXTERN_C  extern "C"
+#else
+# define _GDO_EXTERN_C  extern
+#endif
+
+
 /* dladdr(3); n/a on Windows (WINAPI) and AIX */
 #if !defined(GDO_WINAPI) && \
     !defined(_AIX)
@@ -162,7 +170,7 @@ typedef struct {
   const char *dli_sname;
   void       *dli_saddr;
 } Dl_info;
-extern int dladdr(const void *addr, Dl_info *info);
+_GDO_EXTERN_C int dladdr(const void *addr, Dl_info *info);
 #endif
 
 
@@ -196,7 +204,7 @@ extern int dladdr(const void *addr, Dl_info *info);
 # else
 #  define RTLD_DI_LINKMAP 3  /* NetBSD libc */
 # endif
-extern int dlinfo(void *handle, int request, void *info);
+_GDO_EXTERN_C int dlinfo(void *handle, int request, void *info);
 #endif
 
 
@@ -217,7 +225,7 @@ extern int dlinfo(void *handle, int request, void *info);
 # define DLMOPEN_PROTOTYPE
 # define LM_ID_NEWLM -1  /* new namespace */
 typedef long int Lmid_t;
-extern void *dlmopen(Lmid_t lmid, const char *path, int flags);
+_GDO_EXTERN_C void *dlmopen(Lmid_t lmid, const char *path, int flags);
 #endif
 
 
-- 
2.43.0

