/* Loader shim: every loader call of the program under test goes through it (linked with
 * -Wl,--wrap=...). It hands out a fresh handle value for every successful open, so that any use
 * of a handle that is not open is seen, records all calls, and can make any call fail. */
#ifndef VK_SHIM_H
#define VK_SHIM_H
#ifdef __cplusplus
extern "C" {
#endif
#include <stddef.h>
void vk_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vk_logstr(const char *tag, const char *s);      /* tag x<hex> (or ~ for NULL) */
/* kind: open close dlinfo lname-null lname-empty lname-long dladdr dlifname-null dlifname-empty dlifname-long atexit errlen  */
void vk_fault(const char *kind, long arg);
void vk_fault_sym(const char *name);
void vk_fault_clear(void);
void vk_fds(void);                                   /* logs a change of the set of open descriptors */
int vk_fault_now(const char *line);                  /* parse "fault ..." */
void *vk_malloc(size_t n);                           /* an allocation of the driver: never made to fail */
char *vk_unhex(const char *tok);                     /* ~ -> NULL, x<hex> -> malloc'd string */
extern const char *const vk_names[];                 /* NULL terminated; given by the driver */
#ifdef __cplusplus
}
#endif
#endif
