/* Guest-only C library subset. */
typedef unsigned long size_t; typedef __builtin_va_list va_list; void* malloc(size_t);
static int vp_errno; int* __errno_location() { return &vp_errno; }
#define errno vp_errno
#define ERANGE 34
// ---- strings
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lc(*a) == lc(*b)) { ++a; ++b; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (; n; --n, ++s) if (*s == (unsigned char)c) return (void*)s; return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strdup(const char* s) { char* p = (char*)malloc(strlen(s) + 1); strcpy(p, s); return p; }
static char vp_se[2] = "E"; char* strerror(int) { return vp_se; }
int snprintf(char* b, size_t n, const char*, ...) { if (n) b[0] = 0; return 0; }
int vsnprintf(char* b, size_t n, const char*, va_list) { if (n) b[0] = 0; return 0; }
int sprintf(char* b, const char*, ...) { b[0] = 0; return 0; } int printf(const char*, ...) { return 0; } int puts(const char*) { return 0; } int putchar(int c) { return c; }
void perror(const char*) {}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isdigit(int c) { return c >= '0' && c <= '9'; } int tolower(int c) { return lc(c); } int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int dig(int c) { if (c >= '0' && c <= '9') return c - '0'; c = lc(c); if (c >= 'a' && c <= 'z') return c - 'a' + 10; return 99; }
static unsigned long parse(const char* s, char** e, int base, _Bool* neg, _Bool* ovf) {
    const char* p = s; while (isspace(*p)) ++p; *neg = 0; *ovf = 0; if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long v = 0; _Bool any = 0; while (dig(*p) < base) { unsigned long o = v; v = v * base + dig(*p); if (o > (~0ul - dig(*p)) / base) *ovf = 1; ++p; any = 1; }
    if (e) *e = (char*)(any ? p : s); return v;
}
unsigned long strtoul(const char* s, char** e, int b) { _Bool n, o; unsigned long v = parse(s, e, b, &n, &o); if (o) { errno = ERANGE; return ~0ul; } return n ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(const char* s, char** e, int b) { _Bool n, o; unsigned long v = parse(s, e, b, &n, &o); if (o || (!n && v > 0x7ffffffffffffffful) || (n && v > 0x8000000000000000ul)) { errno = ERANGE; return n ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; } return n ? (long)(0 - v) : (long)v; }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); } long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); }
/* one integer conversion, "%d" or "%u" (other formats: nothing is read) */
static int scan1(const char* s, const char* f, va_list a) {
    if (f[0] != '%' || (f[1] != 'd' && f[1] != 'u' && f[1] != 'i') || f[2]) return 0; char* e; long v = f[1] == 'u' ? (long)strtoul(s, &e, 10) : strtol(s, &e, 10);
    if (e == s) { while (isspace(*s)) ++s; return *s ? 0 : -1; } *__builtin_va_arg(a, int*) = (int)v; return 1;
}
int sscanf(const char* s, const char* f, ...) { va_list a; __builtin_va_start(a, f); int r = scan1(s, f, a); __builtin_va_end(a); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list a; __builtin_va_start(a, f); int r = scan1(s, f, a); __builtin_va_end(a); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list a; __builtin_va_start(a, f); int r = scan1(s, f, a); __builtin_va_end(a); return r; }
