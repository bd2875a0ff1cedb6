// C library functions for the symbolic executor (see psirt.cpp).
#include <stddef.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
typedef struct psiFILE FILE; typedef long time_t; typedef long clock_t; typedef void* locale_t;
#define ERANGE 34
#define PUT(c) do { char c_ = (c); if (o + 1 < n) b[o] = c_; o++; } while (0)
void* malloc(size_t); void* memcpy(void*, const void*, size_t); size_t strlen(const char*); void abort(void);
// ---------------------------------------------------------------- C library
#define RNG(c, a, b) ((unsigned)(c) - (unsigned)(a) <= (unsigned)(b) - (unsigned)(a))
int isdigit(int c) { return RNG(c, '0', '9'); }
int isupper(int c) { return RNG(c, 'A', 'Z'); }
int islower(int c) { return RNG(c, 'a', 'z'); }
int isalpha(int c) { return RNG(c | 32, 'a', 'z') & RNG(c, 0, 127); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | RNG(c, 9, 13); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isxdigit(int c) { return isdigit(c) | (RNG(c | 32, 'a', 'f') & RNG(c, 0, 127)); }
int iscntrl(int c) { return RNG(c, 0, 31) | (c == 127); }
int isprint(int c) { return RNG(c, 32, 126); }
int isgraph(int c) { return RNG(c, 33, 126); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = n; i-- > 0;) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return 0; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
size_t strspn(const char* s, const char* a) { size_t i = 0; while (s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; while (s[i] && !strchr(a, s[i])) i++; return i; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
static int psi_errno = 0;
int* __errno_location() { return &psi_errno; }
static unsigned long long sto(const char* s, char** e, int base, bool* negp, bool* ovfp) {
    const char* p = s; bool neg = false, ovf = false;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false;
    for (;; p++) {
        unsigned c = (unsigned char)*p, d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if ((int)d >= base) break;
        any = true;
        if (v > (ULLONG_MAX - d) / base) ovf = true; else v = v * base + d;
    }
    if (e) *e = (char*)(any ? p : s);
    *negp = neg; *ovfp = ovf;
    return v;
}
unsigned long strtoul(const char* s, char** e, int b) { bool n, o; unsigned long long v = sto(s, e, b, &n, &o); if (o) { psi_errno = ERANGE; return ULONG_MAX; } return n ? -v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(const char* s, char** e, int b) { bool n, o; unsigned long long v = sto(s, e, b, &n, &o); if (o || v > (unsigned long long)LONG_MAX + n) { psi_errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
double strtod(const char* s, char** e) {
    const char* p = s; while (isspace((unsigned char)*p)) p++;
    bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    double v = 0; bool any = false;
    while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; any = true; }
    if (*p == '.') { p++; double f = 1; while (isdigit((unsigned char)*p)) { f *= 10; v = v * 10 + (*p - '0'); p++; any = true; } v /= f; }
    if (any && (*p == 'e' || *p == 'E')) { char* q; long x = strtol(p + 1, &q, 10); if (q != p + 1) { p = q; while (x > 0) { v *= 10; x--; } while (x < 0) { v /= 10; x++; } } }
    if (e) *e = (char*)(any ? p : s);
    return neg ? -v : v;
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
long double strtold(const char* s, char** e) { return strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
time_t time(time_t* t) { static time_t now = 1700000000; now++; if (t) *t = now; return now; }
static unsigned psi_seed = 1;
void srand(unsigned s) { psi_seed = s; }
int rand() { psi_seed = psi_seed * 1103515245u + 12345u; return (psi_seed >> 1) & 0x7fffffff; }
void srandom(unsigned s) { psi_seed = s; }
long random() { return rand(); }
clock_t clock() { static clock_t c = 0; return ++c; }
char* getenv(const char*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int fputs(const char*, FILE*) { return 1; }
int fputc(int c, FILE*) { return c; }
int putchar(int c) { return c; }
int puts(const char*) { return 1; }
int fflush(FILE*) { return 0; }
int fprintf(FILE*, const char*, ...) { return 1; }
int printf(const char*, ...) { return 1; }
void perror(const char*) {}
int pthread_once(int* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
char __libc_single_threaded = 1;
// a small vsnprintf: integers, strings, characters, pointers and fixed-precision doubles
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    size_t o = 0;
    
    for (; *f; f++) {
        if (*f != '%') { PUT(*f); continue; }
        f++;
        bool left = false, zero = false, plus = false, alt = false;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') {} else break; }
        int w = 0, prec = -1;
        if (*f == '*') { w = va_arg(ap, int); f++; if (w < 0) { left = true; w = -w; } } else while (isdigit(*f)) w = w * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        int l = 0; bool LD = false;
        for (;; f++) { if (*f == 'l') l++; else if (*f == 'h') l--; else if (*f == 'z' || *f == 'j' || *f == 't') l = 1; else if (*f == 'L') LD = true; else break; }
        char tmp[400]; int k = 0; const char* src = tmp; char sign = 0; const char* pre = "";
        switch (*f) {
        case 'd': case 'i': { long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int); if (l == -1) v = (short)v; if (l <= -2) v = (signed char)v; unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v; if (v < 0) sign = '-'; else if (plus) sign = '+'; char r[32]; int q = 0; do { r[q++] = '0' + u % 10; u /= 10; } while (u); while (q < prec && q < 30) r[q++] = '0'; while (q) tmp[k++] = r[--q]; break; }
        case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long u = (l > 0 || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (l == -1) u = (unsigned short)u; if (l <= -2) u = (unsigned char)u; int base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; if ((alt && base == 16 && u) || *f == 'p') pre = *f == 'X' ? "0X" : "0x"; char r[32]; int q = 0; do { r[q++] = dg[u % base]; u /= base; } while (u); while (q < prec && q < 30) r[q++] = '0'; while (q) tmp[k++] = r[--q]; break; }
        case 'c': tmp[k++] = (char)va_arg(ap, int); zero = false; break;
        case 's': { src = va_arg(ap, const char*); if (!src) src = "(null)"; k = prec >= 0 ? (int)strnlen(src, prec) : (int)strlen(src); zero = false; break; }
        case '%': PUT('%'); continue;
        case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
            double v = LD ? (double)va_arg(ap, long double) : va_arg(ap, double);
            if (v < 0) { sign = '-'; v = -v; } else if (plus) sign = '+';
            if (prec < 0) prec = 6;
            char cf = *f | 32;
            int x10 = 0; double m = v;
            if (v > 0) { while (m >= 10) { m /= 10; x10++; } while (m < 1) { m *= 10; x10--; } }
            bool strip = false;
            if (cf == 'g') { if (prec == 0) prec = 1; double rr = m; double h = 0.5; for (int i = 1; i < prec; i++) h /= 10; if (rr + h >= 10) x10++; if (x10 < -4 || x10 >= prec) { cf = 'e'; prec--; m = v; int z = x10; while (z > 0) { m /= 10; z--; } while (z < 0) { m *= 10; z++; } } else { cf = 'f'; prec = prec - 1 - x10; } strip = !alt; }
            double u = cf == 'e' ? m : v; double h = 0.5; for (int i = 0; i < prec; i++) h /= 10; u += h;
            if (cf == 'e' && u >= 10) { u /= 10; x10++; }
            char r[330]; int q = 0; double ip = __builtin_floor(u); double fr = u - ip;
            if (ip < 1e18) { unsigned long L = (unsigned long)ip; do { r[q++] = '0' + L % 10; L /= 10; } while (L); } else { r[q++] = '?'; }
            while (q) tmp[k++] = r[--q];
            if (prec > 0) { tmp[k++] = '.'; for (int i = 0; i < prec && i < 40; i++) { fr *= 10; int dgt = (int)fr; if (dgt > 9) dgt = 9; tmp[k++] = '0' + dgt; fr -= dgt; } if (strip) { while (tmp[k - 1] == '0') k--; if (tmp[k - 1] == '.') k--; } }
            if (cf == 'e') { tmp[k++] = *f == 'E' || *f == 'G' ? 'E' : 'e'; tmp[k++] = x10 < 0 ? '-' : '+'; int a = x10 < 0 ? -x10 : x10; if (a >= 100) { tmp[k++] = '0' + a / 100; a %= 100; } tmp[k++] = '0' + a / 10; tmp[k++] = '0' + a % 10; }
            break; }
        default: abort();
        }
        int tot = k + (sign ? 1 : 0) + (int)strlen(pre);
        if (!left && !zero) for (int i = tot; i < w; i++) PUT(' ');
        if (sign) PUT(sign);
        for (const char* q = pre; *q; q++) PUT(*q);
        if (!left && zero) for (int i = tot; i < w; i++) PUT('0');
        for (int i = 0; i < k; i++) PUT(src[i]);
        if (left) for (int i = tot; i < w; i++) PUT(' ');
    }
    if (n) b[o < n ? o : n - 1] = 0;
    return (int)o;
}
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 30, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
char* setlocale(int, const char*) { return (char*)"C"; }
locale_t __uselocale(locale_t) { return 0; }
locale_t uselocale(locale_t) { return 0; }
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long gmtoff; const char* zone; };
struct tm* localtime(const time_t* t) { static struct tm m; m.tm_year = 123; m.tm_mon = 10; m.tm_mday = 14; m.tm_hour = 22; m.tm_min = 13; m.tm_sec = (int)(*t % 60); return &m; }
struct tm* gmtime(const time_t* t) { return localtime(t); }
size_t strftime(char* b, size_t n, const char* f, const struct tm* m) {
    size_t o = 0;
    for (; *f; f++) {
        int v = -1;
        if (*f == '%' && f[1]) { f++; switch (*f) { case 'y': v = m->tm_year % 100; break; case 'm': v = m->tm_mon + 1; break; case 'd': v = m->tm_mday; break; case 'H': v = m->tm_hour; break; case 'M': v = m->tm_min; break; case 'S': v = m->tm_sec; break; default: break; } }
        if (v >= 0) { if (o + 2 >= n) return 0; b[o++] = '0' + v / 10; b[o++] = '0' + v % 10; }
        else { if (o + 1 >= n) return 0; b[o++] = *f; }
    }
    b[o] = 0;
    return o;
}
int vsscanf(const char* s, const char* f, va_list ap) {
    int got = 0; const char* s0 = s;
    for (; *f; f++) {
        if (isspace(*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return got || *s ? got : -1; s++; continue; }
        f++;
        bool skip = false; int w = 0, l = 0;
        if (*f == '*') { skip = true; f++; }
        while (isdigit(*f)) w = w * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'h') { l += *f == 'l' ? 1 : -1; f++; }
        if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
        if (*f != 'c' && *f != '%') while (isspace((unsigned char)*s)) s++;
        if (!*s) return got ? got : -1;
        switch (*f) {
        case 'd': case 'u': case 'x': case 'i': {
            char tmp[64]; int k = 0; int lim = w && w < 63 ? w : 63;
            int base = *f == 'x' ? 16 : 10;
            const char* q = s;
            if (k < lim && (*q == '-' || *q == '+')) tmp[k++] = *q++;
            int dg = 0;
            if (base == 16 && *q == '0' && (q[1] | 32) == 'x' && k + 2 <= lim) { tmp[k++] = *q++; dg++; tmp[k++] = *q++; }
            while (k < lim && *q && (base == 16 ? isxdigit((unsigned char)*q) : isdigit((unsigned char)*q))) { tmp[k++] = *q++; dg++; }
            if (!dg) return got;
            tmp[k] = 0;
            long v = strtol(tmp, 0, base); s = q;
            if (!skip) { if (l > 0) *va_arg(ap, long*) = v; else *va_arg(ap, int*) = (int)v; got++; }
            break; }
        case 'c': if (!skip) { *va_arg(ap, char*) = *s; got++; } s++; break;
        case 's': { char* d = skip ? 0 : va_arg(ap, char*); int k = 0; while (*s && !isspace((unsigned char)*s) && (!w || k < w)) { if (d) d[k] = *s; k++; s++; } if (d) { d[k] = 0; got++; } break; }
        default: abort();
        }
    }
    return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }

// type_info objects of fundamental types
struct psiTI { const void* vt; const char* name; unsigned fl; const void* pt; };
const struct psiTI _ZTIv = {0, "v"};
const struct psiTI _ZTIb = {0, "b"};
const struct psiTI _ZTIc = {0, "c"};
const struct psiTI _ZTIh = {0, "h"};
const struct psiTI _ZTIa = {0, "a"};
const struct psiTI _ZTIs = {0, "s"};
const struct psiTI _ZTIw = {0, "w"};
const struct psiTI _ZTIt = {0, "t"};
const struct psiTI _ZTIi = {0, "i"};
const struct psiTI _ZTIj = {0, "j"};
const struct psiTI _ZTIl = {0, "l"};
const struct psiTI _ZTIm = {0, "m"};
const struct psiTI _ZTIx = {0, "x"};
const struct psiTI _ZTIy = {0, "y"};
const struct psiTI _ZTIf = {0, "f"};
const struct psiTI _ZTId = {0, "d"};
const struct psiTI _ZTIe = {0, "e"};
const struct psiTI _ZTIPv = {0, "Pv", 0, &_ZTIv}; const struct psiTI _ZTIPKv = {0, "PKv", 1, &_ZTIv};
const struct psiTI _ZTIPc = {0, "Pc", 0, &_ZTIc}; const struct psiTI _ZTIPKc = {0, "PKc", 1, &_ZTIc};
const struct psiTI _ZTIPh = {0, "Ph", 0, &_ZTIh}; const struct psiTI _ZTIPKh = {0, "PKh", 1, &_ZTIh};
const struct psiTI _ZTIPi = {0, "Pi", 0, &_ZTIi}; const struct psiTI _ZTIPKi = {0, "PKi", 1, &_ZTIi};
const struct psiTI _ZTIPl = {0, "Pl", 0, &_ZTIl}; const struct psiTI _ZTIPKl = {0, "PKl", 1, &_ZTIl};
const struct psiTI _ZTIPm = {0, "Pm", 0, &_ZTIm}; const struct psiTI _ZTIPKm = {0, "PKm", 1, &_ZTIm};
