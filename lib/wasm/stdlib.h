#ifndef VT_STDLIB_H
#define VT_STDLIB_H
#include <stddef.h>
int abs(int); long labs(long); void *malloc(size_t); void free(void *); void abort(void); int atoi(const char *); int rand(void);
#endif
