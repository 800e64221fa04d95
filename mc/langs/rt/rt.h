#ifndef MC_RT_H
#define MC_RT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#ifdef RT_CONC
#define RT_TLS __thread
#else
#define RT_TLS
#endif
#ifdef __cplusplus
extern "C" {
#endif
/* allocator under test control */
void* rt_malloc(size_t n);
void* rt_realloc(void* p, size_t n);
void rt_free(void* p);
extern RT_TLS long rt_live, rt_allocs, rt_fail_at;
extern RT_TLS int rt_zero_null;
/* command tokens */
int64_t rt_i(void);
uint64_t rt_u(void);
char* rt_str(size_t* len);        /* s<hex>, memory from rt_malloc, NUL terminated */
uint8_t* rt_hex(size_t* len);     /* x<hex>, plain malloc, exact size */
/* output line */
void rt_out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void rt_outhex(const uint8_t* p, size_t n);
void rt_reset_out(void);
/* a point at which the controlled scheduler may switch threads (conc.c) */
#ifdef RT_CONC
void rt_pt(void);
char* rt_exec(const char* line);
#else
#define rt_pt() ((void)0)
#endif
#ifdef __cplusplus
}
#endif
#endif
