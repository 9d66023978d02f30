// C library models for the symbolic executor
#include <stddef.h>
#include <stdint.h>
int64_t ve_sym_int(const char *name, int idx, int64_t lo, int64_t hi);
int strncmp(const char *a, const char *b, size_t n);
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
void *memchr(const void *s, int c, size_t n) { unsigned char *p = (unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return p + i; return 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *strrchr(const char *s, int c) { const char *r = 0; do { if (*s == (char)c) r = s; } while (*s++); return (char*)r; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (; ; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
static unsigned long long rng_state = 0;
int rand() { return (int)ve_sym_int("rand", (int)rng_state++, 0, 2147483647); }
int backtrace(void **, int) { return 0; }
char **backtrace_symbols(void *const *, int) { return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
