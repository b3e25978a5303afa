// IR side of the runtime: libc functions jom calls, and the file-system parts that are real files natively.
#undef __OPTIMIZE__   // no inline versions from the C library headers
#include "rt.h"
#include "rt_int.h"
#include <stdio.h>
#include <errno.h>

QString rt_cwd() { return QStringLiteral("/w"); }
void rt_nativeWrite(const QByteArray &, const QByteArray &, bool) {}
void rt_nativeTouch(const QByteArray &, const QByteArray &, bool) {}
void rt_nativeMkdir(const QByteArray &) {}
bool rt_exists(const QByteArray &p) { RtFile *f = rt_find(p); return f && f->exists; }
QByteArray rt_content(const QByteArray &p) { RtFile *f = rt_find(p); return f && f->exists ? f->content : QByteArray(); }

extern "C" {
int sym_exit(int code);                                     // engine: return from the innermost rt_run with this code
static char g_f0[64], g_f1[64], g_f2[64];
extern FILE *stdin, *stdout, *stderr;
FILE *stdin = (FILE *)g_f0, *stdout = (FILE *)g_f1, *stderr = (FILE *)g_f2;
static QByteArray *chan(FILE *f) {
    if (f == stdout) return &rt_stdout();
    if (f == stderr) return &rt_stderr();
    sym_internal_error("write to unmodelled FILE");
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char *m_strchr(const char *s, int c) __asm__("strchr");
char *m_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
int isspace(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int toupper(int c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : c; }
int tolower(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
void exit(int code) { sym_exit(code); __builtin_unreachable(); }
int fputs(const char *s, FILE *f) { chan(f)->append(s); return 1; }
int puts(const char *s) { rt_stdout().append(s); rt_stdout().append('\n'); return 1; }
int m_putchar(int c) __asm__("putchar");
int m_putchar(int c) { rt_stdout().append((char)c); return c; }
int m_fputc(int c, FILE *f) __asm__("fputc");
int m_fputc(int c, FILE *f) { chan(f)->append((char)c); return c; }
int m_putc(int c, FILE *f) __asm__("putc");
int m_putc(int c, FILE *f) { return fputc(c, f); }
__attribute__((weak)) size_t h_fwrite(const void *p, size_t sz, size_t n, FILE *f);
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (h_fwrite) return h_fwrite(p, sz, n, f); chan(f)->append((const char *)p, (int)(sz * n)); return n; }
__attribute__((weak)) int h_fflush(FILE *);
int fflush(FILE *f) { return h_fflush ? h_fflush(f) : 0; }
int fileno(FILE *f) { return f == stdout ? 1 : 2; }
static int g_errno;
__attribute__((weak)) int *h___errno_location(void);
int *__errno_location(void) { return h___errno_location ? h___errno_location() : &g_errno; }
__attribute__((weak)) int h_fclose(FILE *);
int fclose(FILE *f) { return h_fclose ? h_fclose(f) : 0; }
int ferror(FILE *) { return 0; }
void clearerr(FILE *) {}
__attribute__((weak)) FILE *h_fopen(const char *, const char *); __attribute__((weak)) FILE *h_freopen(const char *, const char *, FILE *);
FILE *fopen(const char *n, const char *m) { return h_fopen ? h_fopen(n, m) : nullptr; }
FILE *freopen(const char *n, const char *m, FILE *f) { return h_freopen ? h_freopen(n, m, f) : nullptr; }
size_t fread(void *, size_t, size_t, FILE *) { sym_internal_error("fread"); }
int getc(FILE *) { sym_internal_error("getc"); }
uint32_t arc4random(void) { return 0x12345; }
__attribute__((weak)) int h_system(const char *);
int system(const char *c) { if (h_system) return h_system(c); sym_internal_error("system"); }

static void fmt(QByteArray &o, const char *f, const uint64_t *a)
{
    for (; *f; ++f) {
        if (*f != '%') { o.append(*f); continue; }
        ++f; bool lng = false, zero = false; int wd = 0;
        if (*f == '0') { zero = true; ++f; }
        while (*f >= '0' && *f <= '9') wd = wd * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'z') { lng = true; ++f; }
        switch (*f) {
        case '%': o.append('%'); break;
        case 's': o.append((const char *)*a++); break;
        case 'c': o.append((char)*a++); break;
        case 'd': case 'i': { QByteArray n = lng ? QByteArray::number((qlonglong)*a) : QByteArray::number((int)*a); ++a; while (n.size() < wd) n.prepend(zero ? '0' : ' '); o.append(n); break; }
        case 'u': { QByteArray n = lng ? QByteArray::number((qulonglong)*a) : QByteArray::number((uint)*a); ++a; while (n.size() < wd) n.prepend(zero ? '0' : ' '); o.append(n); break; }
        default: sym_internal_error("unmodelled printf conversion");
        }
    }
}
int m_printf(const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e) __asm__("printf");
int m_printf(const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e) { uint64_t v[5] = { a, b, c, d, e }; fmt(rt_stdout(), f, v); return 1; }
int m_fprintf(FILE *s, const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e) __asm__("fprintf");
int m_fprintf(FILE *s, const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e) { uint64_t v[5] = { a, b, c, d, e }; fmt(*chan(s), f, v); return 1; }
int m_snprintf(char *o, size_t n, const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d) __asm__("snprintf");
int m_snprintf(char *o, size_t n, const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d) { uint64_t v[5] = { a, b, c, d, 0 }; QByteArray r; fmt(r, f, v); if (n) { size_t k = (size_t)r.size() < n - 1 ? (size_t)r.size() : n - 1; memcpy(o, r.constData(), k); o[k] = 0; } return r.size(); }
int m_sprintf(char *o, const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d) __asm__("sprintf");
int m_sprintf(char *o, const char *f, uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return m_snprintf(o, 1000000, f, a, b, c, d); }
int m_wsprintfW(ushort *o, const ushort *f, uint64_t) __asm__("wsprintfW");
int m_wsprintfW(ushort *o, const ushort *f, uint64_t) { int i = 0; while (f[i] && f[i] != '%') { o[i] = f[i]; ++i; } o[i] = 0; return i; }
// strtol, base 10 or given; used through atoi and strtol
long m_strtol(const char *s, char **end, int base) __asm__("__isoc23_strtol");
long m_strtol(const char *s, char **end, int base)
{
    const char *p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    neg = sym_concretize(*p == '-') != 0; if (neg) ++p; else if (sym_concretize(*p == '+')) ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if (base == 0) base = (*p == '0') ? 8 : 10;
    const unsigned long lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
    unsigned long v = 0; bool any = false, ovf = false; int cnt = 0;
    for (;; ++p) {
        int c = (unsigned char)*p, dgt;
        if (c >= '0' && c <= '9') dgt = c - '0'; else if (c >= 'a' && c <= 'z') dgt = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') dgt = c - 'A' + 10; else break;
        if (dgt >= base) break;
        any = true;
        if (ovf) continue;
        if (++cnt > 12 && v > (lim - (unsigned long)dgt) / (unsigned long)base) { ovf = true; continue; }
        v = v * (unsigned long)base + (unsigned long)dgt;
    }
    if (end) *end = const_cast<char *>(any ? p : s);
    if (ovf) { g_errno = ERANGE; v = lim; }
    return neg ? (long)(0 - v) : (long)v;
}
long strtol(const char *s, char **e, int b);
long m_strtol2(const char *s, char **end, int base) __asm__("strtol");
long m_strtol2(const char *s, char **end, int base) { return m_strtol(s, end, base); }
long long m_strtoll(const char *s, char **end, int base) __asm__("strtoll");
long long m_strtoll(const char *s, char **end, int base) { return m_strtol(s, end, base); }
long long m_strtoll2(const char *s, char **end, int base) __asm__("__isoc23_strtoll");
long long m_strtoll2(const char *s, char **end, int base) { return m_strtol(s, end, base); }
int m_atoi(const char *s) __asm__("atoi");
int m_atoi(const char *s) { return (int)m_strtol(s, nullptr, 10); }
}
extern "C" __attribute__((noinline)) int rt_run(void (*fn)(void *), void *ctx) { fn(ctx); return -1; }
