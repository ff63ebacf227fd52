#ifndef VT_STDIO_H
#define VT_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct FILE FILE; extern FILE *stdout, *stderr;
int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int sprintf(char *, const char *, ...); int snprintf(char *, size_t, const char *, ...); int fputs(const char *, FILE *); int puts(const char *); int fputc(int, FILE *);
#endif
