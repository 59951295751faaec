#ifndef VKP_LINK_H
#define VKP_LINK_H
struct link_map { unsigned long l_addr; char *l_name; void *l_ld; struct link_map *l_next, *l_prev; };
#endif
