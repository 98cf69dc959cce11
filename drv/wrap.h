/* Refuses allocations asked for by the library, and counts what it holds. */
#ifndef WRAP_H
#define WRAP_H
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int armed;            /* the library is at work */
static long asked, refused;  /* allocations, since then */
static long which;           /* the one refused, if any */
static int onwards;          /* and all after it */
static long live;            /* blocks held by the library */
static char plan[256];       /* what is being tried, for the report of a crash */

static int refuse(void)
{
    if (!armed) return 0;
    ++asked;
    if (which && (asked == which || (onwards && asked > which))) { ++refused; errno = ENOMEM; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { if (refuse()) return NULL; void *p = __real_malloc(n); if (armed && p) ++live; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (refuse()) return NULL; void *p = __real_calloc(a, b); if (armed && p) ++live; return p; }
void *__wrap_realloc(void *o, size_t n)
{
    if (refuse()) return NULL;
    void *p = __real_realloc(o, n);
    if (armed && !o && p) ++live;
    return p;
}
/* other ways in which a library may come by memory that is freed with free */
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t); void *__real_reallocarray(void *, size_t, size_t);
int __real_vasprintf(char **, const char *, va_list);
char *__wrap_strdup(const char *s) { if (refuse()) return NULL; char *p = __real_strdup(s); if (armed && p) ++live; return p; }
char *__wrap_strndup(const char *s, size_t n) { if (refuse()) return NULL; char *p = __real_strndup(s, n); if (armed && p) ++live; return p; }
void *__wrap_reallocarray(void *o, size_t a, size_t b)
{
    if (refuse()) return NULL;
    void *p = __real_reallocarray(o, a, b);
    if (armed && !o && p) ++live;
    return p;
}
int __wrap_vasprintf(char **s, const char *f, va_list ap)
{
    if (refuse()) { *s = NULL; return -1; }
    int r = __real_vasprintf(s, f, ap);
    if (armed && r >= 0) ++live;
    return r;
}
int __wrap_asprintf(char **s, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = __wrap_vasprintf(s, f, ap);
    va_end(ap);
    return r;
}
void __wrap_free(void *p) { if (armed && p) --live; __real_free(p); }

static void arm(long k, int on) { asked = refused = 0; which = k; onwards = on; armed = 1; }
static void disarm(void) { int e = errno; armed = 0; errno = e; }
/* calls a thing of the library without refusing it anything */
#define CALM(x) do { long w_ = which; int a_ = armed; which = 0; armed = 1; x; armed = a_; which = w_; } while (0)

void __asan_on_error(void);
void __asan_on_error(void) { if (write(2, plan, strlen(plan)) < 0) _exit(9); }
static void aborted(int s) { (void)s; if (write(2, plan, strlen(plan)) < 0) _exit(9); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
#define WATCH() signal(SIGABRT, aborted)
#endif
