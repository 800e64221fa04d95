#include "rt.h"
#include <stdarg.h>
RT_TLS long rt_live, rt_allocs, rt_fail_at; RT_TLS int rt_zero_null;
void* rt_malloc(size_t n) {
    rt_allocs++;
    if (rt_fail_at && rt_allocs == rt_fail_at) return NULL;
    if (n == 0 && rt_zero_null) return NULL;
    if (n > ((size_t)1 << 28)) return NULL;
    void* p = malloc(n);
    if (p) { memset(p, 0xCD, n); rt_live++; }
    return p;
}
void* rt_realloc(void* q, size_t n) {
    rt_allocs++;
    if (rt_fail_at && rt_allocs == rt_fail_at) return NULL;
    void* p = realloc(q, n);
    if (p && !q) rt_live++;
    return p;
}
void rt_free(void* p) { if (p) { rt_live--; free(p); } }
static RT_TLS char* cur;
static char* nexttok(void) {
    while (*cur == ' ') cur++;
    char* s = cur;
    while (*cur && *cur != ' ' && *cur != '\n') cur++;
    if (*cur) *cur++ = 0;
    if (!*s) { fprintf(stderr, "harness: missing token\n"); exit(9); }
    return s;
}
int64_t rt_i(void) { return strtoll(nexttok(), NULL, 10); }
uint64_t rt_u(void) { return strtoull(nexttok(), NULL, 10); }
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static size_t unhex(const char* s, uint8_t* o) { size_t n = 0; for (; s[0] && s[1]; s += 2) o[n++] = (uint8_t)(hv(s[0]) * 16 + hv(s[1])); return n; }
char* rt_str(size_t* len) {
    char* t = nexttok(); if (*t != 's') { fprintf(stderr, "harness: want string got %s\n", t); exit(9); }
    size_t n = strlen(t + 1) / 2; long f = rt_fail_at; rt_fail_at = 0; int z = rt_zero_null; rt_zero_null = 0;
    char* p = (char*)rt_malloc(n + 1); rt_fail_at = f; rt_zero_null = z;
    *len = unhex(t + 1, (uint8_t*)p); p[n] = 0; return p;
}
uint8_t* rt_hex(size_t* len) {
    char* t = nexttok(); if (*t != 'x') { fprintf(stderr, "harness: want hex got %s\n", t); exit(9); }
    size_t n = strlen(t + 1) / 2; uint8_t* p = (uint8_t*)malloc(n); *len = unhex(t + 1, p); return p;
}
static RT_TLS char* ob; static RT_TLS size_t on, oc;
static void need(size_t k) { if (on + k + 1 > oc) { oc = (on + k + 1) * 2 + 256; ob = (char*)realloc(ob, oc); } }
void rt_out(const char* fmt, ...) {
    if (fmt[0] == 'o' && fmt[1] == 'k') rt_pt();
    va_list a; va_start(a, fmt); va_list b; va_copy(b, a);
    int k = vsnprintf(NULL, 0, fmt, a); need((size_t)k); vsnprintf(ob + on, (size_t)k + 1, fmt, b); on += (size_t)k;
    va_end(a); va_end(b);
}
void rt_outhex(const uint8_t* p, size_t n) { need(2 * n); for (size_t i = 0; i < n; i++) { static const char* d = "0123456789abcdef"; ob[on++] = d[p[i] >> 4]; ob[on++] = d[p[i] & 15]; } ob[on] = 0; }
void rt_reset_out(void) { on = 0; }
void rt_dispatch(int cmd, int pid);
static void exec(char* line) {
    cur = line; on = 0; need(1); ob[0] = 0;
    rt_fail_at = 0; rt_zero_null = 0; rt_allocs = 0; rt_live = 0;
    char* c = nexttok();
    if (*c == 'A') { rt_fail_at = (long)rt_i(); rt_zero_null = (int)rt_i(); c = nexttok(); }
    int pid = (int)rt_i();
    rt_dispatch(*c, pid);
    if (rt_live != 0) rt_out(" LEAK%ld", rt_live);
}
#ifdef RT_CONC
char* rt_exec(const char* line) { char* l = strdup(line); exec(l); free(l); char* h = strstr(ob, " #"); if (h) { *h = 0; on = (size_t)(h - ob); } while (on && ob[on - 1] == ' ') ob[--on] = 0; return ob; }
#else
int main(void) {
    char* line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        size_t l = strlen(line); while (l && (line[l-1] == '\n' || line[l-1] == '\r')) line[--l] = 0;
        exec(line);
        rt_out(" #a%ld", rt_allocs);
        fputs(ob, stdout); fputc('\n', stdout); fflush(stdout);
    }
    return 0;
}
#endif
