// C models of libc functions, executed symbolically by the engine only.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <stdlib.h>
void* symx_memchr (const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char) c) return (void*)(s+i); return 0; }
size_t symx_strlen (const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t symx_strnlen (const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char* symx_strchr (const char* s, int c) { for (;; ++s) { if (*s == (char) c) return (char*) s; if (!*s) return 0; } }
char* symx_strrchr (const char* s, int c) { char* r = 0; for (;; ++s) { if (*s == (char) c) r = (char*) s; if (!*s) return r; } }
char* symx_strncpy (char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* symx_strcpy (char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
int symx_strcmp (const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int symx_strncmp (const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* symx_strdup (const char* s) { size_t n = symx_strlen(s)+1; char* r = malloc(n); if (r) for (size_t i = 0; i < n; ++i) r[i] = s[i]; return r; }
void* symx_memrchr (const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char) c) return (void*)(s+n); return 0; }
void* symx_memmem (const void* h, size_t hn, const void* n, size_t nn) { const unsigned char *a = h, *b = n; if (nn > hn) return 0; for (size_t i = 0; i + nn <= hn; ++i) { size_t j = 0; while (j < nn && a[i+j] == b[j]) ++j; if (j == nn) return (void*)(a+i); } return 0; }
static unsigned long toul (const char* s, char** e, int base, int sgn, int* neg, int* ovf, unsigned long lim)
{
    const char* p = s; *neg = 0; *ovf = 0;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
    if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1]|32) == 'x') { char c = p[2]; int h = (c >= '0' && c <= '9') || ((c|32) >= 'a' && (c|32) <= 'f'); if (h) { p += 2; base = 16; } else if (!base) base = 8; }
    else if ((base == 0 || base == 2) && p[0] == '0' && (p[1]|32) == 'b' && (p[2] == '0' || p[2] == '1')) { p += 2; base = 2; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long v = 0; int any = 0; const char* st = p;
    for (;; ++p) {
	unsigned c = (unsigned char)*p, d;
	if (c >= '0' && c <= '9') d = c - '0'; else if ((c|32) >= 'a' && (c|32) <= 'z') d = (c|32) - 'a' + 10; else break;
	if (d >= (unsigned) base) break;
	any = 1;
	unsigned long nv = v * base + d;
	// up to 12 characters cannot overflow 64 bits in any base <= 36
	if (p - st >= 11) { unsigned __int128 w = (unsigned __int128) v * base + d; if (w > ULONG_MAX) *ovf = 1; }
	v = nv;
    }
    if (e) *e = (char*)(any ? p : s);
    (void) sgn; (void) lim;
    return v;
}
long symx_strtol (const char* s, char** e, int base)
{
    int neg, ovf; unsigned long v = toul(s,e,base,1,&neg,&ovf,0);
    if (ovf || v > (unsigned long) LONG_MAX + neg) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long)(0-v) : (long) v;
}
unsigned long symx_strtoul (const char* s, char** e, int base) { int neg, ovf; unsigned long v = toul(s,e,base,0,&neg,&ovf,0); if (ovf) { errno = ERANGE; return ULONG_MAX; } return neg ? 0-v : v; }
long symx___isoc23_strtol (const char* s, char** e, int b) { return symx_strtol(s,e,b); }
long long symx___isoc23_strtoll (const char* s, char** e, int b) { return symx_strtol(s,e,b); }
unsigned long symx___isoc23_strtoul (const char* s, char** e, int b) { return symx_strtoul(s,e,b); }
unsigned long long symx___isoc23_strtoull (const char* s, char** e, int b) { return symx_strtoul(s,e,b); }
long long symx_strtoll (const char* s, char** e, int b) { return symx_strtol(s,e,b); }
unsigned long long symx_strtoull (const char* s, char** e, int b) { return symx_strtoul(s,e,b); }
int symx_atoi (const char* s) { return (int) symx_strtol(s,0,10); }

int sym_fmt_double (char* out, size_t n, const char* fmt, int width, int prec, double v);
struct out { char* p; size_t n, pos; };
static void put (struct out* o, char c) { if (o->pos + 1 < o->n) o->p[o->pos] = c; ++o->pos; }
int symx_vsnprintf (char* buf, size_t n, const char* f, va_list ap)
{
    struct out o = { buf, n, 0 };
    for (; *f; ++f) {
	if (*f != '%') { put(&o,*f); continue; }
	++f;
	int left=0, zero=0, plus=0, space=0, alt=0, width=0, prec=-1, lng=0, sh=0;
	for (;; ++f) { if (*f == '-') left=1; else if (*f == '0') zero=1; else if (*f == '+') plus=1; else if (*f == ' ') space=1; else if (*f == '#') alt=1; else break; }
	if (*f == '*') { width = va_arg(ap,int); if (width < 0) { left=1; width=-width; } ++f; } else while (*f >= '0' && *f <= '9') width = width*10 + *f++ - '0';
	if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap,int); ++f; } else { while (*f >= '0' && *f <= '9') prec = prec*10 + *f++ - '0'; } }
	for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') ++lng; else if (*f == 'h') ++sh; else break; }
	char c = *f;
	if (c == '%') { put(&o,'%'); continue; }
	if (c == 'c') { char ch = (char) va_arg(ap,int); for (int i = 1; !left && i < width; ++i) put(&o,' '); put(&o,ch); for (int i = 1; left && i < width; ++i) put(&o,' '); continue; }
	if (c == 's') { const char* s = va_arg(ap,const char*); if (!s) s = "(null)"; size_t l = 0; while ((prec < 0 || l < (size_t) prec) && s[l]) ++l; for (int i = l; !left && i < width; ++i) put(&o,' '); for (size_t i = 0; i < l; ++i) put(&o,s[i]); for (int i = l; left && i < width; ++i) put(&o,' '); continue; }
	if (c == 'f' || c == 'F' || c == 'g' || c == 'G' || c == 'e' || c == 'E' || c == 'a') {
	    char ff[16]; int k = 0; ff[k++]='%'; if (left) ff[k++]='-'; if (zero) ff[k++]='0'; if (plus) ff[k++]='+'; if (space) ff[k++]=' '; if (alt) ff[k++]='#'; ff[k++]='*'; ff[k++]='.'; ff[k++]='*'; ff[k++]=c; ff[k]=0;
	    double v = va_arg(ap,double); char t[400]; int l = sym_fmt_double(t,sizeof t,ff,width,prec,v); for (int i = 0; i < l; ++i) put(&o,t[i]); continue; }
	unsigned long v; int neg = 0; unsigned base = 10;
	if (c == 'd' || c == 'i') { long x = lng ? va_arg(ap,long) : va_arg(ap,int); if (sh == 1) x = (short) x; else if (sh > 1) x = (signed char) x; neg = x < 0; v = neg ? 0ul-(unsigned long) x : (unsigned long) x; }
	else if (c == 'p') { v = (unsigned long) va_arg(ap,void*); base = 16; alt = 1; if (!v) { const char* s = "(nil)"; for (int i = 5; !left && i < width; ++i) put(&o,' '); while (*s) put(&o,*s++); for (int i = 5; left && i < width; ++i) put(&o,' '); continue; } }
	else { v = lng ? va_arg(ap,unsigned long) : va_arg(ap,unsigned); if (sh == 1) v = (unsigned short) v; else if (sh > 1) v = (unsigned char) v; if (c == 'x' || c == 'X') { base = 16; } else if (c == 'o') base = 8; plus = space = 0; }
	char t[40]; int l = 0; unsigned long u = v;
	if (base == 16) { char al = c == 'X' ? 'A'-10 : 'a'-10; while (u) { unsigned x = u&15; t[l++] = (char)(x + (x < 10 ? '0' : al)); u >>= 4; } } else if (base == 8) { while (u) { t[l++] = (char)('0' + (u&7)); u >>= 3; } }
	else if (u >> 32) { while (u) { t[l++] = (char)('0' + u%10); u /= 10; } }
	else { unsigned w = (unsigned) u; while (w) { t[l++] = (char)('0' + w%10); w /= 10; } }
	if (!l && prec != 0) t[l++] = '0';
	int nd = l; if (prec > nd) nd = prec;
	if (alt && base == 8 && nd == l && (!l || t[l-1] != '0')) ++nd;
	int pre = (neg || plus || space) ? 1 : 0; if (alt && base == 16 && v) pre = 2;
	if (zero && !left && prec < 0 && nd + pre < width) nd = width - pre;
	for (int i = nd + pre; !left && i < width; ++i) put(&o,' ');
	if (neg) put(&o,'-'); else if (plus && base == 10) put(&o,'+'); else if (space && base == 10) put(&o,' ');
	if (alt && base == 16 && v) { put(&o,'0'); put(&o,c == 'X' ? 'X' : 'x'); }
	for (int i = l; i < nd; ++i) put(&o,'0');
	while (l) put(&o,t[--l]);
	for (int i = nd + pre; left && i < width; ++i) put(&o,' ');
    }
    if (n) buf[o.pos < n ? o.pos : n-1] = 0;
    return (int) o.pos;
}
int symx_snprintf (char* b, size_t n, const char* f, ...) { va_list a; va_start(a,f); int r = symx_vsnprintf(b,n,f,a); va_end(a); return r; }
int symx_sprintf (char* b, const char* f, ...) { va_list a; va_start(a,f); int r = symx_vsnprintf(b,INT_MAX,f,a); va_end(a); return r; }
void symx_qsort (void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    char* p = b;
    for (size_t i = 1; i < n; ++i) for (size_t j = i; j && cmp(p+(j-1)*sz,p+j*sz) > 0; --j) for (size_t k = 0; k < sz; ++k) { char t = p[(j-1)*sz+k]; p[(j-1)*sz+k] = p[j*sz+k]; p[j*sz+k] = t; }
}
int symx_isdigit (int c) { return c >= '0' && c <= '9'; }
