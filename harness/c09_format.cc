//@ property=C09
//@ oracle="the C library function called directly with the same argument; texts of symbolic characters"
//@ entry=h_len cases=0-4 bound="format and vformat of %s and mixed formats, output of 0-40 characters, from empty, linked, and owned strings of every capacity 0-40"
//@ entry=h_tostr cases=0-5 bound="to_string of every int, unsigned, long, unsigned long, long long, unsigned long long"
//@ entry=h_float cases=0 bound="to_string of float and double: 12 values (formatting itself is the C library's)"
//@ entry=h_sto cases=0-4 bound="stoi, stol, stoul, stoll, stoull: texts of 0-4 characters, all byte values, bases 10, 0, 16, 8, with and without idx"
//@ entry=h_digits cases=0-4 bound="the same on optional sign and 0-20 decimal digits, all digits: value and characters consumed"
//@ entry=h_round cases=0-1 bound="stoi(to_string(v)) = v for every 16 bit v, and at the extremes of every width"
//@ entry=h_stof cases=0 bound="stof and stod on 8 texts, value and idx"
//@ trusted="the C library's vsnprintf and strtol, for which the engine runs its own implementation"
//@ outside="long double; locales; formatting a string into itself"
#include "hx.h"
#include "ustring.h"
#include <stdio.h>
#include <limits.h>
#include <stdarg.h>
static int vf (string& s, const char* f, ...) { va_list a; va_start (a,f); int r = s.vformat(f,a); va_end(a); return r; }
static bool same (const string& s, const char* e, size_t n) { if (s.size() != n || !s.c_str()) return false; bool ok = !s.c_str()[n]; for (size_t i = 0; i < n; ++i) ok &= s.c_str()[i] == e[i]; return ok; }
extern "C" void h_len (int c)
{
    size_t n = sym_pick(0,40,"n"); char t[41], ex[80]; for (size_t i = 0; i < n; ++i) { t[i] = (char) sym_u8("t"); sym_assume(t[i] != 0); } t[n] = 0;
    string s; int r; switch (c) { case 0: break; case 1: s.link("abc",3); break; case 2: s.assign("zz"); s.reserve(sym_pick(0,40,"cap"),true); break; case 3: { size_t k = sym_pick(0,40,"size"); s.assign(k,'q'); } break; case 4: s = string("hello"); break; }
    int v = (int) sym_bits(8,"v")-128; size_t l;
    switch (sym_pick(0,4,"how")) {
	case 0: r = s.format("%s",t); l = snprintf(ex,sizeof ex,"%s",t); break;
	case 1: r = vf(s,"%s",t); l = snprintf(ex,sizeof ex,"%s",t); break;
	case 2: r = s.format("%.*s",(int) n,t); l = n; for (size_t i = 0; i < n; ++i) ex[i] = t[i]; break;
	case 3: if (n > 20) return; r = s.format("%s:%d,%x%c",t,v,v&0xff,'e'); l = snprintf(ex,sizeof ex,"%s:%d,%x%c",t,v,v&0xff,'e'); break;
	default: if (n > 5) return; r = vf(s,"%d%s%lu",v,t,(unsigned long)(unsigned char) v); l = snprintf(ex,sizeof ex,"%d%s%lu",v,t,(unsigned long)(unsigned char) v); break; }
    CHECK(size_t(r) == l, "returned length"); CHECK(same(s,ex,l), "text"); OBS(r); s.push_back('x'); CHECK(s.size() == l+1 && s.back() == 'x', "usable afterwards");
}
extern "C" void h_tostr (int c)
{
    char ex[40]; int l = 0; string s; uint64_t v = sym_u64("v");
    switch (c) { case 0: s = to_string(int(v)); l = snprintf(ex,sizeof ex,"%d",int(v)); break; case 1: s = to_string(unsigned(v)); l = snprintf(ex,sizeof ex,"%u",unsigned(v)); break; case 2: s = to_string(long(v)); l = snprintf(ex,sizeof ex,"%ld",long(v)); break; case 3: s = to_string((unsigned long) v); l = snprintf(ex,sizeof ex,"%lu",(unsigned long) v); break;
	case 4: s = to_string((long long) v); l = snprintf(ex,sizeof ex,"%lld",(long long) v); break; case 5: s = to_string((unsigned long long) v); l = snprintf(ex,sizeof ex,"%llu",(unsigned long long) v); break; }
    CHECK(same(s,ex,l), "decimal text"); OBS(l);
}
extern "C" void h_float (int)
{
    static const double D[] = { 0, 1, -1, 0.5, 3.14159265, -2.25e10, 1e-7, 123456789.125, -0.0, 1e30, 7.0/3, 99999999 }; double d = D[sym_pick(0,11,"d")]; char ex[64]; int l = snprintf(ex,sizeof ex,"%f",d); string s = to_string(d); CHECK(same(s,ex,l), "double"); float f = (float) d; l = snprintf(ex,sizeof ex,"%f",f); CHECK(same(to_string(f),ex,l), "float"); OBS(l);
}
static void conv (int c, const string& s, bool wi, int b)
{
    const char* p = s.c_str(); char* e = 0; size_t i = 99; size_t* ip = wi ? &i : nullptr; bool ok = true;
    switch (c) { case 0: { int x = (int) strtol(p,&e,b); ok = b == 10 && !wi ? stoi(s) == x : stoi(s,ip,b) == x; } break; case 1: { long x = strtol(p,&e,b); ok = stol(s,ip,b) == x; } break; case 2: { unsigned long x = strtoul(p,&e,b); ok = stoul(s,ip,b) == x; } break; case 3: { long long x = strtoll(p,&e,b); ok = stoll(s,ip,b) == x; } break; case 4: { unsigned long long x = strtoull(p,&e,b); ok = stoull(s,ip,b) == x; } break; }
    CHECK(ok, "value"); if (wi) CHECK(i == size_t(e-p), "characters consumed"); OBS(e-p);
}
extern "C" void h_sto (int c)
{
    static const int B[] = {10,0,16,8}; size_t n = sym_pick(0,4,"n"); string s; for (size_t i = 0; i < n; ++i) s.push_back((char) sym_u8("t")); int b = B[sym_pick(0,3,"base")]; conv(c,s,sym_bool("idx"),b);
}
extern "C" void h_digits (int c)
{
    size_t n = sym_pick(0,20,"n"); string s; unsigned sg = (unsigned) sym_pick(0,2,"sign"); if (sg) s.push_back(sg == 1 ? '-' : '+'); uint64_t v = 0; bool over = false; for (size_t i = 0; i < n; ++i) { uint64_t d = i < 3 || i + 1 == n ? sym_range(0,9,"d") : i % 10; s.push_back(char('0'+d)); if (i >= 18) over = true; v = v*10+d; } if (sym_bool("tail")) s.push_back(';');
    size_t i = 99; if (!over && sg != 1) { bool ok = c == 0 ? stoi(s,&i) == int(v) : c == 1 ? stol(s,&i) == long(v) : c == 2 ? stoul(s,&i) == v : c == 3 ? stoll(s,&i) == (long long) v : stoull(s,&i) == v; CHECK(ok, "value of the digits"); CHECK(i == (n ? n+!!sg : 0), "characters consumed"); } else conv(c,s,true,10); OBS(i);
}
extern "C" void h_round (int c)
{
    if (!c) { int v = (int16_t) sym_u16("v"); string s (to_string(v)); size_t i; int r = stoi(s,&i); CHECK(i == s.size(), "all consumed"); CHECK(r == v, "round trip"); OBS(i); return; }
    int k = (int) sym_pick(0,1,"d"); bool ok = stoi(to_string(INT_MIN+k)) == INT_MIN+k; ok &= stoi(to_string(INT_MAX-k)) == INT_MAX-k; ok &= stol(to_string(LONG_MIN+k)) == LONG_MIN+k; ok &= stol(to_string(LONG_MAX-k)) == LONG_MAX-k; ok &= stoul(to_string(ULONG_MAX-k)) == ULONG_MAX-k; ok &= stoll(to_string((long long) LONG_MIN+k)) == LONG_MIN+k; ok &= stoull(to_string((unsigned long long) ULONG_MAX-k)) == ULONG_MAX-k; ok &= (unsigned) stoul(to_string(UINT_MAX-k)) == UINT_MAX-k; CHECK(ok, "extremes"); OBS(ok);
}
extern "C" void h_stof (int)
{
    static const char* const X[] = { "1.5", "-2e3x", "", "abc", " 42", "0.125,", "1e400", "-0" }; int k = (int) sym_pick(0,7,"k"); string s (X[k]); size_t i = 9, j = 9; char* e; double d = strtod(X[k],&e); CHECK(stod(s,&i) == d && i == size_t(e-X[k]), "stod"); float f = strtof(X[k],&e); CHECK(stof(s,&j) == f && j == size_t(e-X[k]), "stof"); CHECK(stod(s) == d && stof(s) == f, "without idx"); OBS(i);
}
