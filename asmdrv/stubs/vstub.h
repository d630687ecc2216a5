/* Minimal declarations standing in for the C library's headers, so that the public headers compile for every target without its C library. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct vstub_file FILE;
extern FILE *stderr, *stdout;
int printf(const char *, ...);
int fprintf(FILE *, const char *, ...);
int snprintf(char *, size_t, const char *, ...);
void perror(const char *);
void abort(void) __attribute__((noreturn));
void exit(int) __attribute__((noreturn));
void *malloc(size_t); void *calloc(size_t, size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
size_t strlen(const char *);
int *__errno_location(void);
#define errno (*__errno_location())
#define EINVAL 22
#define ENOMEM 12
typedef struct { long x[8]; } pthread_mutex_t;
typedef unsigned long pthread_t;
#if defined(_GNU_SOURCE) || !defined(__STRICT_ANSI__)
typedef long off_t;
#endif
typedef long ssize_t; typedef int pid_t;
void __assert_fail(const char *, const char *, unsigned int, const char *) __attribute__((noreturn));
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((e) ? (void)0 : __assert_fail(#e, __FILE__, __LINE__, __func__))
#endif
#ifdef __cplusplus
}
#endif
