#include <stddef.h>
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* s, const char* t) { for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char*)s; if (!*s) return 0; } }
int atoi(const char* s) { long strtol(const char*, char**, int); return (int)strtol(s, 0, 10); }
static unsigned long vstrto(const char* s, char** e, int base, _Bool* neg) {
    const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; *neg = *p == '-'; if (*p == '-' || *p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; const char* b = p; for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (d >= base) break; v = v * base + d; }
    if (e) *e = (char*)(p == b ? s : p); return v;
}
#define STRTO(T, N) T N(const char* s, char** e, int b) { _Bool n; unsigned long v = vstrto(s, e, b, &n); return (T)(n ? -v : v); }
STRTO(long, __isoc23_strtol) STRTO(unsigned long, __isoc23_strtoul) STRTO(long long, __isoc23_strtoll) STRTO(unsigned long long, __isoc23_strtoull) STRTO(long, strtol) STRTO(unsigned long, strtoul) STRTO(long long, strtoll) STRTO(unsigned long long, strtoull)
