/* alloc.h - allocation faults and leak accounting (alloc.c replaces the allocator's entry points).
 * Between al_begin and al_end every allocation is tracked and the n-th one made from code linked into the
 * executable (= the library under test; libzip and libc are outside) can be made to fail. */
#ifndef ALLOC_H
#define ALLOC_H
#include <stddef.h>
void al_begin(long fail_at);          /* 1 = first eligible allocation fails; 0 = none */
void al_max(size_t bytes);            /* larger requests fail (0 = no limit) */
void al_any(int any);                 /* 1: allocations made by shared libraries are eligible too */
long al_count(void);                  /* eligible allocations since al_begin */
int  al_failed(void);                 /* an injected failure happened */
void al_pause(void); void al_resume(void);
long al_end(void);                    /* blocks allocated since al_begin and still live (-1: not tracked in this build) */
size_t al_size(const void *p);        /* size requested for a tracked live block, 0 if unknown */
size_t al_room(const void *p);        /* bytes from p to the end of the tracked live block it points into, 0 if unknown */
#endif
